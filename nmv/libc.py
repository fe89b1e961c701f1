"""Contracts of libc / talloc / glib functions (assumed; listed as the trusted base in the evidence).

Each contract is fn(eng, st, args, ins) -> list of outcomes: (state, value) or (state, kind, value)."""
import z3
import strs
from sym import Ptr, FPtr, NULL, UNDEF, Undef, Obj, Unsupported, FP, PInt, bv, conc, tobool, tobv1, Split
from strs import astr, new_str, lit, sym, cat, is_lit, lit_val, PathDead

M64 = (1 << 64) - 1
CT = {}


def contract(*names):
    def d(f):
        for n in names:
            CT[n] = f
        return f
    return d


def guard(f):
    """Contracts raise PathDead when the path has ended in a reported failure."""
    def g(eng, st, a, ins):
        try:
            return f(eng, st, a, ins)
        except PathDead:
            return []
    g.__name__ = f.__name__
    return g


def rd(eng, st, p, i=0):
    """Read one byte at p+i with the usual obligations; raises PathDead on a reported failure."""
    q = Ptr(p.o, eng.addoff(p.off, i, 1, ('i', 64))) if not (isinstance(i, int) and i == 0) else p
    v = eng.load(st, q, ('i', 8), eng.prog.anymod())
    if v is None:
        raise PathDead()
    return v


def wr(eng, st, p, i, v):
    q = Ptr(p.o, eng.addoff(p.off, i, 1, ('i', 64)))
    if not eng.store(st, q, v, ('i', 8), eng.prog.anymod()):
        raise PathDead()


# character classes -------------------------------------------------------
def in_range(c, lo, hi, w):
    return z3.And(z3.UGE(c, z3.BitVecVal(lo, w)), z3.ULE(c, z3.BitVecVal(hi, w)))


def is_digit(c, w=8):
    return in_range(c, 48, 57, w)


def is_xdigit(c, w=8):
    return z3.Or(in_range(c, 48, 57, w), in_range(c, 65, 70, w), in_range(c, 97, 102, w))


def is_space(c, w=8):
    return z3.Or(c == 32, in_range(c, 9, 13, w))


def is_alpha(c, w=8):
    return z3.Or(in_range(c, 65, 90, w), in_range(c, 97, 122, w))


def is_upper(c, w=8):
    return in_range(c, 65, 90, w)


def is_lower(c, w=8):
    return in_range(c, 97, 122, w)


def is_cntrl(c, w=8):
    return z3.Or(z3.ULT(c, z3.BitVecVal(32, w)), c == 127)


def is_print(c, w=8):
    return in_range(c, 32, 126, w)


def is_punct(c, w=8):
    return z3.And(in_range(c, 33, 126, w), z3.Not(is_alpha(c, w)), z3.Not(is_digit(c, w)))


CLS = [(0x100, is_upper), (0x200, is_lower), (0x400, is_alpha), (0x800, is_digit), (0x1000, is_xdigit),
       (0x2000, is_space), (0x4000, is_print), (0x8000, lambda c, w: in_range(c, 33, 126, w)),
       (0x1, lambda c, w: z3.Or(c == 32, c == 9)), (0x2, is_cntrl), (0x4, is_punct),
       (0x8, lambda c, w: z3.Or(is_alpha(c, w), is_digit(c, w)))]


def ctype_bits(c, w):
    r = z3.BitVecVal(0, 16)
    for b, f in CLS:
        r = r | z3.If(f(c, w), z3.BitVecVal(b, 16), z3.BitVecVal(0, 16))
    return r


@contract('__ctype_b_loc')
def ctype_b_loc(eng, st, a, ins):
    if 'ctype_tab' not in st.mem:
        def lazy(eng, st, p, rt):
            off = bv(p.off)
            idx = off >> 1
            eng.prove(st, z3.And(idx >= -128, idx <= 255), 'ctype argument in range', 'memory')
            return conc(ctype_bits(idx, 64))
        st.mem['ctype_tab'] = Obj('lazy', None, None, 'ctype', lazy=lazy, ro=True)
        st.mem['ctype_ptr'] = Obj('cells', 8, {0: (8, Ptr('ctype_tab', 0))}, 'ctype', ro=True)
    return (Ptr('ctype_ptr', 0),)


def ctype_fn(f):
    def g(eng, st, a, ins):
        c = bv(a[0], 32)
        return (conc(tobv1(conc(f(c, 32)), 32)),)
    return g


CT['isxdigit'] = ctype_fn(is_xdigit)
CT['isdigit'] = ctype_fn(is_digit)
CT['isspace'] = ctype_fn(is_space)
CT['isalpha'] = ctype_fn(is_alpha)
CT['isupper'] = ctype_fn(is_upper)
CT['islower'] = ctype_fn(is_lower)
CT['isprint'] = ctype_fn(is_print)
CT['iscntrl'] = ctype_fn(is_cntrl)
CT['isalnum'] = ctype_fn(lambda c, w: z3.Or(is_alpha(c, w), is_digit(c, w)))


@contract('toupper')
def toupper(eng, st, a, ins):
    c = bv(a[0], 32)
    return (conc(z3.If(is_lower(c, 32), c - 32, c)),)


@contract('tolower')
def tolower(eng, st, a, ins):
    c = bv(a[0], 32)
    return (conc(z3.If(is_upper(c, 32), c + 32, c)),)


# assertions / termination --------------------------------------------------
@contract('__assert_fail')
def assert_fail(eng, st, a, ins):
    try:
        m = lit_val(astr(eng, st, a[0])).decode()
    except Exception:
        m = '?'
    eng.fail(st, 'assert (%s)' % m, 'assert')
    return []


@contract('abort')
def abort_(eng, st, a, ins):
    eng.fail(st, 'abort() reached', 'assert')
    return []


@contract('exit', '_exit')
def exit_(eng, st, a, ins):
    return [(st, 'halt', a[0])]


@contract('_internal_error')
def internal_error(eng, st, a, ins):
    eng.fail(st, 'INTERNAL_ERROR reached', 'assert')
    return []


# byte-level strings --------------------------------------------------------
def mk_cstr(eng, st, name, maxlen=1 << 32):
    """An arbitrary NUL-terminated byte string; returns (Ptr, array, length)."""
    arr = eng.fresh_arr(name)
    n = eng.fresh('len_' + name, 64)
    eng.assume(st, z3.ULE(n, z3.BitVecVal(maxlen, 64)))
    p = eng.alloc(st, 'bytes', conc(n + 1), arr, name)
    register_cstr(eng, st, arr, n)
    return p, arr, n


def register_cstr(eng, st, arr, n):
    eng.add_rax(st, arr, lambda st, o: z3.And(z3.Implies(z3.ULT(o, n), z3.Select(arr, o) != 0),
                                              z3.Implies(o == n, z3.Select(arr, o) == 0)))
    st.rax[('len', arr.get_id())] = (arr, n)
    eng.assume(st, z3.Select(arr, n) == 0)


def c_strlen(eng, st, p):
    if p.o == 0 or isinstance(p, Undef):
        eng.fail(st, 'strlen of null pointer', 'memory')
        raise PathDead()
    ob = eng.obj(st, p.o)
    if ob.kind == 'str':
        return strs.str_len(eng, st, strs.drop(eng, st, ob.data, conc(p.off)))
    if ob.kind == 'const' and isinstance(p.off, int):
        return len(lit_val(astr(eng, st, p)))
    if ob.kind == 'cells':
        s = astr(eng, st, p)
        if is_lit(s):
            return len(lit_val(s))
    ob = eng.to_bytes(st, p.o)
    arr = ob.data
    o = bv(p.off)
    k = st.rax.get(('len', arr.get_id()))
    if k is not None:
        n = k[1]
        # inside the string?
        r, _ = eng._check(st.pc + [z3.Not(z3.ULE(o, n))], timeout=5000)
        if r == z3.unsat:
            return conc(n - o)
    kk = ('slen', arr.get_id(), o.get_id())
    c = st.rax.get(kk)
    if c is not None:
        return c[2]
    # fall back: length defined by the first NUL; a NUL must be known to exist
    r = eng.fresh('strlen', 64)
    ub = known_nul(eng, st, arr, o, ob)
    if ub is None:
        eng.fail(st, 'string in %s is not known to be terminated' % ob.name, 'memory', definite=False)
        raise PathDead()
    eng.assume(st, z3.ULE(r, ub - o))
    eng.read_arr(st, arr, o + r)
    eng.assume(st, z3.Select(arr, o + r) == 0)
    eng.add_rax(st, arr, lambda st, j: z3.Implies(z3.And(z3.UGE(j, o), z3.ULT(j - o, r)), z3.Select(arr, j) != 0))
    st.rax[kk] = (arr, o, r)
    return r


def known_nul(eng, st, arr, o, ob):
    a = arr
    cands = []
    k = st.rax.get(('len', a.get_id()))
    if k:
        cands.append(k[1])
    for kk in st.ghost.get('nul_hints', ()):
        cands.append(kk)
    while z3.is_app_of(a, z3.Z3_OP_STORE):
        v = conc(a.arg(2))
        cands.append(a.arg(1))
        a = a.arg(0)
        k = st.rax.get(('len', a.get_id()))
        if k:
            cands.append(k[1])
    for s in cands:
        eng.read_arr(st, arr, s)
        r, _ = eng._check(st.pc + [z3.Not(z3.And(z3.UGE(s, o), z3.Select(arr, s) == 0))], timeout=5000)
        if r == z3.unsat:
            return s
    return None


@contract('strlen')
@guard
def strlen_(eng, st, a, ins):
    return (c_strlen(eng, st, a[0]),)


def strchr_set(lits, c):
    return z3.Or([c == b for b in lits])


@contract('strchr')
@guard
def strchr_(eng, st, a, ins):
    p, c = a
    if p.o == 0:
        eng.fail(st, 'strchr of null', 'memory')
        return []
    ob = eng.obj(st, p.o)
    cc = conc(z3.Extract(7, 0, bv(c, 32)))
    s = astr(eng, st, p) if ob.kind in ('const', 'cells') and isinstance(p.off, int) else None
    if s is not None and is_lit(s):
        b = lit_val(s)
        if isinstance(cc, int):
            k = b.find(bytes([cc])) if cc else len(b)
            return [(st, NULL if k < 0 else Ptr(p.o, eng.addoff(p.off, k, 1, ('i', 64))))]
        inset = z3.Or(strchr_set(b, cc), cc == 0) if b else cc == 0
        t, f = eng.branch(st, inset)
        out = []
        if t is not None:
            k = eng.fresh('strchr', 64)
            eng.assume(t, z3.ULE(k, z3.BitVecVal(len(b), 64)))
            d = z3.BitVecVal(len(b), 64)
            for i in range(len(b) - 1, -1, -1):
                d = z3.If(cc == b[i], z3.BitVecVal(i, 64), d)
            out.append((t, Ptr(p.o, conc(bv(p.off) + d))))
        if f is not None:
            out.append((f, NULL))
        return out
    if ob.kind == 'str':
        return strchr_abs(eng, st, p, ob, cc)
    # arbitrary bytes: first occurrence
    n = c_strlen(eng, st, p)
    ob = eng.to_bytes(st, p.o)
    arr = ob.data
    o = bv(p.off)
    N = bv(n)
    if isinstance(cc, int) and cc == 0:
        return [(st, Ptr(p.o, conc(o + N)))]
    ccv = bv(cc, 8)
    s2 = st.fork()
    s2.model = None
    # found at k
    k = eng.fresh('found', 64)
    st.model = None
    eng.assume(st, z3.ULT(k, N))
    eng.read_arr(st, arr, conc(o + k))
    eng.assume(st, z3.Select(arr, o + k) == ccv)
    eng.add_rax(st, arr, lambda st, j: z3.Implies(z3.And(z3.UGE(j, o), z3.ULT(j - o, k)), z3.Select(arr, j) != ccv))
    out = []
    if eng.feasible(st):
        out.append((st, Ptr(p.o, conc(o + k))))
    eng.add_rax(s2, arr, lambda st, j: z3.Implies(z3.And(z3.UGE(j, o), z3.ULT(j - o, N)), z3.Select(arr, j) != ccv))
    if eng.feasible(s2):
        out.append((s2, NULL))
    return out


hasch = z3.Function('hasch', z3.IntSort(), z3.BitVecSort(8), z3.BoolSort())
idxch = z3.Function('idxch', z3.IntSort(), z3.BitVecSort(8), z3.BitVecSort(64))
ridxch = z3.Function('ridxch', z3.IntSort(), z3.BitVecSort(8), z3.BitVecSort(64))


def strchr_abs(eng, st, p, ob, cc, last=False):
    s = strs.drop(eng, st, ob.data, conc(p.off))
    base = conc(p.off)
    order = list(enumerate(s))
    # walk parts in order; positions relative
    def pos_before(i):
        return bv(strs.str_len(eng, st, s[:i])) if i else z3.BitVecVal(0, 64)
    if isinstance(cc, int) and cc == 0:
        return [(st, Ptr(p.o, conc(bv(base) + bv(strs.str_len(eng, st, s)))))]
    out = []
    cur = st
    for i, part in (reversed(order) if last else order):
        if part[0] == 'lit':
            if isinstance(cc, int):
                k = part[1].rfind(bytes([cc])) if last else part[1].find(bytes([cc]))
                if k >= 0:
                    out.append((cur, Ptr(p.o, conc(bv(base) + pos_before(i) + k))))
                    cur = None
                    break
                continue
            raise Unsupported('strchr symbolic char in abstract literal')
        x = part[1]
        h = hasch(x, bv(cc, 8))
        t, f = eng.branch(cur, h)
        if t is not None:
            fn = ridxch if last else idxch
            k = fn(x, bv(cc, 8))
            eng.assume(t, z3.ULT(k, strs.slen(x)))
            eng.assume(t, strs.schar(x, k) == bv(cc, 8))
            strs.sym_char(eng, t, x, k)
            out.append((t, Ptr(p.o, conc(bv(base) + pos_before(i) + k))))
        cur = f
        if cur is None:
            break
    if cur is not None:
        out.append((cur, NULL))
    return out


@contract('strrchr')
@guard
def strrchr_(eng, st, a, ins):
    p, c = a
    cc = conc(z3.Extract(7, 0, bv(c, 32)))
    if p.o == 0:
        eng.fail(st, 'strrchr of null', 'memory')
        return []
    ob = eng.obj(st, p.o)
    if ob.kind == 'str':
        return strchr_abs(eng, st, p, ob, cc, last=True)
    if ob.kind == 'const' and isinstance(cc, int) and isinstance(p.off, int):
        b = lit_val(astr(eng, st, p))
        k = b.rfind(bytes([cc]))
        return [(st, NULL if k < 0 else Ptr(p.o, p.off + k))]
    n = c_strlen(eng, st, p)
    ob = eng.to_bytes(st, p.o)
    arr, o, N, ccv = ob.data, bv(p.off), bv(n), bv(cc, 8)
    s2 = st.fork()
    s2.model = None
    k = eng.fresh('rfound', 64)
    st.model = None
    eng.assume(st, z3.ULT(k, N))
    eng.read_arr(st, arr, conc(o + k))
    eng.assume(st, z3.Select(arr, o + k) == ccv)
    eng.add_rax(st, arr, lambda st, j: z3.Implies(z3.And(z3.UGT(j, o + k), z3.ULT(j, o + N)), z3.Select(arr, j) != ccv))
    out = []
    if eng.feasible(st):
        out.append((st, Ptr(p.o, conc(o + k))))
    eng.add_rax(s2, arr, lambda st, j: z3.Implies(z3.And(z3.UGE(j, o), z3.ULT(j, o + N)), z3.Select(arr, j) != ccv))
    if eng.feasible(s2):
        out.append((s2, NULL))
    return out


def lit_at(eng, st, p):
    """Literal content of p, or None."""
    if not isinstance(p, Ptr) or p.o == 0:
        return None
    ob = eng.obj(st, p.o)
    if ob.kind == 'const' and isinstance(p.off, int):
        return lit_val(astr(eng, st, p))
    if ob.kind == 'str':
        s = strs.drop(eng, st, ob.data, conc(p.off))
        if is_lit(s):
            return lit_val(s)
    if ob.kind == 'cells':
        s = astr(eng, st, p)
        if is_lit(s):
            return lit_val(s)
    return None


def is_bytes(eng, st, p):
    return isinstance(p, Ptr) and p.o != 0 and eng.obj(st, p.o).kind == 'bytes'


def bytes_eq_lit(eng, st, p, b, n=None):
    """Condition: string at p equals literal b (or its first n chars when n is given)."""
    m = len(b) if n is None else min(n, len(b))
    cs = []
    for i in range(m):
        # reading position i requires that all previous characters matched: use conditional reads
        cs.append((i, b[i]))
    full = n is None or n > len(b)
    return cs, full


def cmp_bytes_lit(eng, st, p, b, n=None):
    """strcmp/strncmp of byte string p against literal b: [(state, equal?)]; char-by-char path split."""
    out = []
    cur = st
    m = len(b) if n is None else min(n, len(b))
    seq = list(b[:m])
    if n is None or n > len(b):
        seq.append(0)
    for i, c in enumerate(seq):
        v = rd(eng, cur, p, i)
        t, f = eng.branch(cur, conc(bv(v, 8) == c))
        if f is not None:
            out.append((f, False))
        cur = t
        if cur is None:
            break
    if cur is not None:
        out.append((cur, True))
    return out


cmpf = z3.Function('strcmp', z3.IntSort(), z3.IntSort(), z3.BitVecSort(32))


def str_cmp(eng, st, p, q, casefold=False):
    for x in (p, q):
        if isinstance(x, Undef) or x.o == 0:
            eng.fail(st, 'string comparison with null pointer', 'memory')
            raise PathDead()
    lp, lq = lit_at(eng, st, p), lit_at(eng, st, q)
    if lp is not None and lq is not None:
        if casefold:
            lp, lq = lp.lower(), lq.lower()
        return [(st, 0 if lp == lq else 1 if lp > lq else 0xffffffff)]
    if not casefold:
        for a, b, l in ((p, q, lq), (q, p, lp)):
            if l is not None and is_bytes(eng, st, a):
                out = []
                for s, e in cmp_bytes_lit(eng, st, a, l):
                    if e:
                        out.append((s, 0))
                    else:
                        r = eng.fresh('cmp', 32)
                        eng.assume(s, r != 0)
                        out.append((s, r))
                return out
    sa, sb = astr(eng, st, p), astr(eng, st, q)
    if casefold:
        ia, ib = strs.to_id(sa), strs.to_id(sb)
        f = z3.Function('strcasecmp', z3.IntSort(), z3.IntSort(), z3.BitVecSort(32))
        r = f(ia, ib)
        e = strs.eq(sa, sb)
        if e is True:
            return [(st, 0)]
        if e is not False:
            eng.assume(st, z3.Implies(e, r == 0))
        return [(st, r)]
    e = strs.eq(sa, sb)
    if e is True:
        return [(st, 0)]
    r = cmpf(strs.to_id(sa), strs.to_id(sb))
    if e is False:
        eng.assume(st, r != 0)
    else:
        eng.assume(st, (r == 0) == e)
    return [(st, r)]


@contract('strcmp', 'g_strcmp0')
@guard
def strcmp_(eng, st, a, ins):
    return str_cmp(eng, st, a[0], a[1])


@contract('strcasecmp', 'g_ascii_strcasecmp')
@guard
def strcasecmp_(eng, st, a, ins):
    return str_cmp(eng, st, a[0], a[1], casefold=True)


prefp = z3.Function('hasprefix', z3.IntSort(), z3.IntSort(), z3.BoolSort())


def has_prefix(eng, st, s, b):
    """Condition: abstract string s starts with literal b."""
    s = strs.norm(s)
    if not b:
        return True
    if not s:
        return False
    if s[0][0] == 'lit':
        l = s[0][1]
        n = min(len(l), len(b))
        if l[:n] != b[:n]:
            return False
        if len(b) <= len(l):
            return True
        return has_prefix(eng, st, s[1:], b[n:])
    x = strs.to_id(s)
    c = prefp(x, z3.IntVal(strs.lit_id(b)))
    # character facts
    cs = []
    ok = []
    for i, ch in enumerate(b):
        v = bv(strs.str_char(eng, st, s, i), 8)
        ok.append(v == ch)
    eng.assume(st, c == z3.And(ok))
    return c


@contract('strncmp')
@guard
def strncmp_(eng, st, a, ins):
    p, q, n = a
    n = conc(n)
    if not isinstance(n, int):
        return strncmp_sym(eng, st, p, q, n)
    lp, lq = lit_at(eng, st, p), lit_at(eng, st, q)
    if lp is not None and lq is not None:
        x, y = lp[:n], lq[:n]
        return [(st, 0 if x == y else 1 if x > y else 0xffffffff)]
    for u, v, l in ((p, q, lq), (q, p, lp)):
        if l is None:
            continue
        if is_bytes(eng, st, u):
            out = []
            for s, e in cmp_bytes_lit(eng, st, u, l, n):
                if e:
                    out.append((s, 0))
                else:
                    r = eng.fresh('ncmp', 32)
                    eng.assume(s, r != 0)
                    out.append((s, r))
            return out
        s = astr(eng, st, u)
        if n > len(l):
            return str_cmp(eng, st, u, v)
        c = has_prefix(eng, st, s, l[:n])
        if c is True:
            return [(st, 0)]
        r = eng.fresh('ncmp', 32)
        if c is False:
            eng.assume(st, r != 0)
        else:
            eng.assume(st, (r == 0) == c)
        return [(st, r)]
    raise Unsupported('strncmp of two symbolic strings')


ncmpf = z3.Function('strncmpeq', z3.IntSort(), z3.IntSort(), z3.BitVecSort(64), z3.BoolSort())


def strncmp_sym(eng, st, p, q, n):
    sa, sb = astr(eng, st, p), astr(eng, st, q)
    r = eng.fresh('ncmp', 32)
    # n == strlen(q): prefix test
    c = ncmpf(strs.to_id(sa), strs.to_id(sb), n)
    eng.assume(st, (r == 0) == c)
    e = strs.eq(sa, sb)
    if e is True:
        eng.assume(st, c)
    elif e is not False:
        eng.assume(st, z3.Implies(e, c))
    return [(st, r)]


# allocation ----------------------------------------------------------------
def alloc_bytes(eng, st, n, name, zero=False):
    n = conc(n)
    if isinstance(n, int) and n <= 4096:
        p = eng.alloc(st, 'cells', n, {}, name)
        if zero:
            eng.memset(st, p, 0, n)
        st.mem[p.o].meta = {'heap': True}
        return p
    p = eng.alloc(st, 'bytes', n, None, name)
    st.mem[p.o].meta = {'heap': True}
    return p


def oom(eng, st, what):
    """With fault injection on, an allocation may also fail."""
    if getattr(eng, 'inject_oom', False):
        s = st.fork()
        s.event('oom', what)
        return [(s, NULL)]
    return []


@contract('talloc_size', '_talloc_size', 'talloc_named_const', '_talloc_array', '_talloc', '_talloc_zero', 'talloc_named',
          '_talloc_zero_array', 'malloc', 'calloc', 'g_malloc', 'g_malloc0', 'xmalloc', 'xcalloc', 'g_malloc_n', 'g_malloc0_n')
def talloc_(eng, st, a, ins):
    raise Unsupported('allocation')


def def_alloc(name, fn, zero=False):
    @guard
    def f(eng, st, a, ins):
        bad = oom(eng, st, name)
        n = fn(a)
        p = alloc_bytes(eng, st, n, name, zero)
        st.event('alloc', name, p.o)
        return bad + [(st, p)]
    CT[name] = f


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return conc(bv(a) * bv(b))


def zx(v):
    if isinstance(v, int):
        return v
    return z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v


def_alloc('talloc_size', lambda a: a[1])
def_alloc('talloc_named_const', lambda a: a[1])
def_alloc('talloc_named', lambda a: a[1])
def_alloc('_talloc', lambda a: a[1])
def_alloc('_talloc_zero', lambda a: a[1], True)
def_alloc('_talloc_array', lambda a: mul(a[1], zx(a[2])))
def_alloc('_talloc_zero_array', lambda a: mul(a[1], zx(a[2])), True)
def_alloc('malloc', lambda a: a[0])
def_alloc('g_malloc', lambda a: a[0])
def_alloc('g_malloc0', lambda a: a[0], True)
def_alloc('calloc', lambda a: mul(a[0], a[1]), True)
def_alloc('g_malloc_n', lambda a: mul(a[0], a[1]))
def_alloc('g_malloc0_n', lambda a: mul(a[0], a[1]), True)
def_alloc('xmalloc', lambda a: a[0])
def_alloc('xcalloc', lambda a: mul(a[0], a[1]), True)


def realloc_to(eng, st, p, n, name):
    if p.o == 0:
        return alloc_bytes(eng, st, n, name)
    ob = eng.obj(st, p.o)
    n = conc(n)
    if ob.kind == 'cells' and isinstance(n, int):
        q = eng.alloc(st, 'cells', n, {k: v for k, v in ob.data.items() if k + v[0] <= n}, ob.name, meta=ob.meta)
    elif ob.kind in ('bytes', 'cells', 'str'):
        ob = eng.to_bytes(st, p.o)
        q = eng.alloc(st, 'bytes', n, ob.data, ob.name, meta=ob.meta)
    else:
        q = eng.alloc(st, ob.kind, None if ob.size is None else n, ob.data, ob.name, meta=ob.meta, lazy=ob.lazy)
    st.mem[p.o] = st.mem[p.o].copy(live=False)
    return q


@contract('_talloc_realloc_array')
@guard
def talloc_realloc_array(eng, st, a, ins):
    # (ctx, ptr, el_size, count, name)
    bad = oom(eng, st, 'talloc_realloc')
    q = realloc_to(eng, st, a[1], mul(a[2], zx(a[3])), 'realloc')
    return bad + [(st, q)]


@contract('_talloc_realloc', 'talloc_realloc_size')
@guard
def talloc_realloc(eng, st, a, ins):
    bad = oom(eng, st, 'talloc_realloc')
    return bad + [(st, realloc_to(eng, st, a[1], a[2], 'realloc'))]


@contract('realloc', 'g_realloc', 'xrealloc')
@guard
def realloc_(eng, st, a, ins):
    bad = oom(eng, st, 'realloc')
    return bad + [(st, realloc_to(eng, st, a[0], a[1], 'realloc'))]


def free_obj(eng, st, p):
    if isinstance(p, Undef):
        eng.fail(st, 'free of uninitialised pointer', 'memory')
        raise PathDead()
    if p.o == 0:
        return
    ob = eng.obj(st, p.o)
    if not ob.live:
        eng.fail(st, 'double free of %s' % ob.name, 'memory')
        raise PathDead()
    st.mem[p.o] = ob.copy(live=False)


@contract('free', 'g_free')
@guard
def free_(eng, st, a, ins):
    free_obj(eng, st, a[0])
    return (None,)


@contract('_talloc_free')
@guard
def talloc_free(eng, st, a, ins):
    # talloc_free (NULL) is a no-op returning -1
    p = a[0]
    if isinstance(p, Undef):
        eng.fail(st, 'talloc_free of uninitialised pointer', 'memory')
        return []
    if p.o == 0:
        return [(st, 0xffffffff)]
    free_obj(eng, st, p)
    return [(st, 0)]


@contract('talloc_unlink')
@guard
def talloc_unlink(eng, st, a, ins):
    p = a[1]
    if p.o == 0:
        return [(st, 0xffffffff)]
    free_obj(eng, st, p)
    return [(st, 0)]


@contract('_talloc_steal_loc', '_talloc_move', '_talloc_reference_loc', '_talloc_get_type_abort')
@guard
def talloc_steal(eng, st, a, ins):
    return (a[1],)


@contract('_talloc_set_destructor', 'talloc_set_name_const', 'talloc_enable_null_tracking', 'talloc_set_log_stderr')
def talloc_nop(eng, st, a, ins):
    return (None,)


@contract('talloc_new')
def talloc_new(eng, st, a, ins):
    return (eng.alloc(st, 'opaque', 0, None, 'talloc_ctx'),)


CT['talloc_init'] = talloc_new


@contract('talloc_strdup', 'strdup', 'g_strdup', 'xstrdup')
@guard
def strdup_(eng, st, a, ins):
    p = a[-1]
    if p.o == 0:
        nm = eng.prog.pretty(ins.a[0][1]) if ins is not None else ''
        if nm == 'talloc_strdup' or nm == 'g_strdup':
            return (NULL,)
    if p.o != 0 and eng.obj(st, p.o).kind == 'bytes' and eng.byte_mode:
        n = c_strlen(eng, st, p)
        ob = eng.to_bytes(st, p.o)
        q = eng.alloc(st, 'bytes', conc(bv(n) + 1), None, 'dup')
        r = eng.memcpy_sym(st, q, p, conc(bv(n) + 1))
        arr = st.mem[q.o].data
        register_cstr(eng, st, arr, bv(n))
        return oom(eng, st, 'strdup') + [(st, q)]
    s = astr(eng, st, p)
    bad = oom(eng, st, 'strdup')
    return bad + [(st, new_str(eng, st, s, 'dup'))]


strndupf = strs.prefixn


@contract('talloc_strndup', 'strndup', 'g_strndup', 'xstrndup')
@guard
def strndup_(eng, st, a, ins):
    p, n = a[-2], conc(a[-1])
    if p.o == 0:
        return (NULL,)
    ob = eng.obj(st, p.o)
    if ob.kind == 'bytes' and eng.byte_mode:
        l = bv(c_strlen(eng, st, p))
        m = conc(z3.If(z3.ULE(l, bv(n)), l, bv(n)))
        q = eng.alloc(st, 'bytes', conc(bv(m) + 1), None, 'ndup')
        eng.memcpy_sym(st, q, p, m)
        wr(eng, st, q, bv(m), 0)
        # registered length
        arr = st.mem[q.o].data
        register_cstr(eng, st, arr, bv(m))
        return oom(eng, st, 'strndup') + [(st, q)]
    s = astr(eng, st, p)
    bad = oom(eng, st, 'strndup')
    if is_lit(s) and isinstance(n, int):
        return bad + [(st, new_str(eng, st, lit(lit_val(s)[:n]), 'ndup'))]
    r = take(eng, st, s, n)
    return bad + [(st, new_str(eng, st, r, 'ndup'))]


def take(eng, st, s, n):
    """First n characters of abstract string s."""
    if isinstance(n, int):
        out = []
        for p in s:
            if p[0] == 'lit':
                if n <= len(p[1]):
                    out.append(('lit', p[1][:n]))
                    return strs.norm(out)
                out.append(p)
                n -= len(p[1])
            else:
                break
        else:
            return strs.norm(out)
        if n == 0:
            return strs.norm(out)
    return sym(strs.prefixn(strs.to_id(s), bv(n)))


# formatted output ----------------------------------------------------------
fmtint = {}


def fmt_fn(spec, w):
    k = (spec, w)
    if k not in fmtint:
        fmtint[k] = z3.Function('fmt_%s_%d' % (spec, w), z3.BitVecSort(w), z3.IntSort())
    return fmtint[k]


def format_parts(eng, st, fmt, args):
    """[('lit', b) | ('str', Ptr, prec) | ('int', spec, value, width) | ('chr', v)]"""
    out = []
    i = 0
    ai = 0
    f = fmt
    while i < len(f):
        if f[i:i + 1] != b'%':
            j = f.find(b'%', i)
            if j < 0:
                j = len(f)
            out.append(('lit', f[i:j]))
            i = j
            continue
        i += 1
        if f[i:i + 1] == b'%':
            out.append(('lit', b'%'))
            i += 1
            continue
        spec = b''
        prec = None
        while f[i:i + 1] in (b'-', b'+', b' ', b'#', b'0', b'1', b'2', b'3', b'4', b'5', b'6', b'7', b'8', b'9', b'.', b'*'):
            if f[i:i + 1] == b'*':
                prec = args[ai]
                ai += 1
            spec += f[i:i + 1]
            i += 1
        ln = b''
        while f[i:i + 1] in (b'l', b'h', b'z', b'j', b't'):
            ln += f[i:i + 1]
            i += 1
        c = f[i:i + 1]
        i += 1
        v = args[ai]
        ai += 1
        if c == b's':
            out.append(('str', v, prec, spec))
        elif c == b'c':
            out.append(('chr', v))
        elif c in b'diuxXo':
            w = 64 if ln[:1] in (b'l', b'z', b'j', b't') else 32
            out.append(('int', (spec + c).decode(), v, w))
        elif c == b'p':
            out.append(('ptr', v))
        elif c == b'm':
            ai -= 1
            out.append(('any', None))
        else:
            out.append(('any', v))
    return out


def fmt_int_lit(spec, v, w):
    c = spec[-1]
    s = spec[:-1]
    x = v
    if c in 'di':
        if x >> (w - 1):
            x -= 1 << w
        return (('%' + s + 'd') % x).encode()
    if c == 'u':
        return (('%' + s + 'd') % x).encode()
    return (('%' + s + c) % x).encode()


def format_str(eng, st, fmt, args):
    r = ()
    for p in format_parts(eng, st, fmt, args):
        if p[0] == 'lit':
            r = cat(r, lit(p[1]))
        elif p[0] == 'str':
            if isinstance(p[1], Undef):
                eng.fail(st, 'formatting uninitialised string', 'memory')
                raise PathDead()
            if p[1].o == 0:
                # glibc prints (null); reported as an error by the callers that care
                st.event('printf-null')
                r = cat(r, lit(b'(null)'))
            elif p[2] is not None:
                n = zx(p[2]) if not isinstance(p[2], int) else p[2]
                if isinstance(n, z3.BitVecRef) and n.size() < 64:
                    n = z3.ZeroExt(64 - n.size(), n)
                s = astr(eng, st, p[1])
                if is_lit(s) and isinstance(n, int):
                    r = cat(r, lit(lit_val(s)[:n]))
                else:
                    l = strs.str_len(eng, st, s)
                    if isinstance(l, z3.ExprRef) and isinstance(n, z3.ExprRef) and z3.simplify(l - n).eq(z3.BitVecVal(0, 64)):
                        r = cat(r, s)
                    else:
                        r = cat(r, take(eng, st, s, n))
            else:
                r = cat(r, astr(eng, st, p[1]))
        elif p[0] == 'chr':
            v = conc(p[1])
            if isinstance(v, int):
                r = cat(r, lit(bytes([v & 0xff])))
            else:
                r = cat(r, sym(chr_id(z3.Extract(7, 0, v))))
        elif p[0] == 'int':
            v = conc(p[2]) if not isinstance(p[2], (int, Undef)) else p[2]
            w = p[3]
            if isinstance(v, Undef):
                eng.fail(st, 'formatting uninitialised integer', 'memory')
                raise PathDead()
            if isinstance(v, int):
                r = cat(r, lit(fmt_int_lit(p[1], v & ((1 << w) - 1), w)))
            else:
                if v.size() != w:
                    v = z3.ZeroExt(w - v.size(), v) if v.size() < w else z3.Extract(w - 1, 0, v)
                x = fmt_fn(p[1], w)(v)
                eng.assume(st, x != 0)
                r = cat(r, sym(x))
        else:
            r = cat(r, sym(eng.fresh_int('fmt')))
    return r


chr_id = z3.Function('chr_id', z3.BitVecSort(8), z3.IntSort())


def fmt_of(eng, st, p):
    l = lit_at(eng, st, p)
    if l is None:
        raise Unsupported('non-literal format string')
    return l


@contract('talloc_asprintf')
@guard
def talloc_asprintf(eng, st, a, ins):
    s = format_str(eng, st, fmt_of(eng, st, a[1]), a[2:])
    return oom(eng, st, 'talloc_asprintf') + [(st, new_str(eng, st, s, 'asprintf'))]


@contract('g_strdup_printf')
@guard
def g_strdup_printf(eng, st, a, ins):
    s = format_str(eng, st, fmt_of(eng, st, a[0]), a[1:])
    return [(st, new_str(eng, st, s, 'printf'))]


@contract('talloc_asprintf_append', 'talloc_asprintf_append_buffer')
@guard
def talloc_asprintf_append(eng, st, a, ins):
    s = format_str(eng, st, fmt_of(eng, st, a[1]), a[2:])
    if a[0].o == 0:
        return oom(eng, st, 'asprintf_append') + [(st, new_str(eng, st, s, 'asprintf'))]
    bad = oom(eng, st, 'asprintf_append')
    b = astr(eng, st, a[0])
    st.mem[a[0].o] = st.mem[a[0].o].copy(live=False)
    return bad + [(st, new_str(eng, st, cat(b, s), 'asprintf'))]


@contract('talloc_strdup_append', 'talloc_strdup_append_buffer')
@guard
def talloc_strdup_append(eng, st, a, ins):
    b = astr(eng, st, a[0]) if a[0].o else ()
    s = astr(eng, st, a[1]) if a[1].o else ()
    if a[0].o:
        st.mem[a[0].o] = st.mem[a[0].o].copy(live=False)
    return oom(eng, st, 'strdup_append') + [(st, new_str(eng, st, cat(b, s), 'append'))]


def va_args(eng, st, p):
    ob = eng.obj(st, p.o)
    if not ob.meta or 'varargs' not in ob.meta:
        raise Unsupported('va_list')
    return ob.meta['varargs'][ob.meta['pos']:]


@contract('talloc_vasprintf')
@guard
def talloc_vasprintf(eng, st, a, ins):
    s = format_str(eng, st, fmt_of(eng, st, a[1]), va_args(eng, st, a[2]))
    return oom(eng, st, 'talloc_vasprintf') + [(st, new_str(eng, st, s, 'vasprintf'))]


HEX = [(10, 48, '0'), (6, 87, 'a')]


def hex_digit(n4, upper=False):
    """ASCII of a 4-bit value held in a BV8."""
    return z3.If(z3.ULT(n4, 10), n4 + 48, n4 + (55 if upper else 87))


def format_bytes(eng, st, fmt, args):
    """Exact bytes when the format produces a bounded, position-independent number of them; else None."""
    out = []
    for p in format_parts(eng, st, fmt, args):
        if p[0] == 'lit':
            out += list(p[1])
        elif p[0] == 'chr':
            out.append(conc(z3.Extract(7, 0, bv(p[1], 32))))
        elif p[0] == 'int' and p[1] in ('02x', '02X', '04x', '04X'):
            up = p[1][-1] == 'X'
            nd = int(p[1][1])
            v = bv(p[2], p[3])
            w = p[3]
            if not eng.dry or True:
                r, _ = eng._check(st.pc + [z3.Not(z3.ULT(v, z3.BitVecVal(1 << (4 * nd), w)))], timeout=5000)
                if r != z3.unsat:
                    return None
            for d in range(nd - 1, -1, -1):
                n = z3.ZeroExt(4, z3.Extract(4 * d + 3, 4 * d, v))
                out.append(conc(hex_digit(n, up)))
        elif p[0] == 'str' and p[2] is None and not p[3]:
            l = lit_at(eng, st, p[1])
            if l is None:
                return None
            out += list(l)
        else:
            return None
    return out


@contract('sprintf')
@guard
def sprintf_(eng, st, a, ins):
    bs = format_bytes(eng, st, fmt_of(eng, st, a[1]), a[2:])
    if bs is None:
        ln = eng.fresh('sprintf', 32)
        ob = eng.obj(st, a[0].o)
        raise Unsupported('sprintf')
    for i, b in enumerate(bs):
        wr(eng, st, a[0], i, b)
    wr(eng, st, a[0], len(bs), 0)
    return (len(bs),)


@contract('snprintf')
@guard
def snprintf_(eng, st, a, ins):
    n = conc(a[1])
    bs = format_bytes(eng, st, fmt_of(eng, st, a[2]), a[3:])
    if bs is not None and isinstance(n, int):
        k = min(len(bs), n - 1)
        for i in range(k):
            wr(eng, st, a[0], i, bs[i])
        if n:
            wr(eng, st, a[0], k, 0)
        return (len(bs),)
    s = format_str(eng, st, fmt_of(eng, st, a[2]), a[3:])
    ob = eng.obj(st, a[0].o)
    if isinstance(n, int) and a[0].off == 0 and n <= (ob.size if isinstance(ob.size, int) else n):
        st.mem[a[0].o] = Obj('str', None, s, 'snprintf')
        st.event('snprintf-untruncated-assumed')
        l = strs.str_len(eng, st, s)
        return (conc(z3.Extract(31, 0, bv(l))),)
    raise Unsupported('snprintf')


def hexval(c):
    return z3.If(is_digit(c), c - 48, z3.If(is_upper(c), c - 55, c - 87))


@contract('strtoul', 'strtol', '__isoc23_strtoul', '__isoc23_strtol')
@guard
def strtoul_(eng, st, a, ins):
    """Exact for base 16/10 on short buffers of known digits; otherwise an unconstrained value and end pointer."""
    p, endp, base = a
    base = conc(base)
    ob = eng.obj(st, p.o)
    if base == 16 and ob.kind == 'cells' and isinstance(p.off, int):
        v = z3.BitVecVal(0, 64)
        i = 0
        while True:
            c = rd(eng, st, p, i)
            c8 = bv(c, 8)
            cc = conc(c8)
            if isinstance(cc, int) and cc == 0:
                break
            r, _ = eng._check(st.pc + [z3.Not(is_xdigit(c8))], timeout=5000)
            if r != z3.unsat:
                v = None
                break
            v = v * 16 + z3.ZeroExt(56, hexval(c8))
            i += 1
            if i > 15:
                v = None
                break
        if v is not None and i:
            if endp.o != 0:
                eng.store(st, endp, Ptr(p.o, p.off + i), ('ptr',), eng.prog.anymod())
            return (conc(v),)
    return strtoul_abs(eng, st, p, endp, base)


strtoulf = z3.Function('strtoul', z3.IntSort(), z3.BitVecSort(64))
strtoule = z3.Function('strtoul_end', z3.IntSort(), z3.BitVecSort(64))


def strtoul_abs(eng, st, p, endp, base):
    s = astr(eng, st, p)
    x = strs.to_id(s)
    # formatted integers read back
    v = strtoulf(x)
    if len(s) == 1 and s[0][0] == 'sym' and z3.is_app(s[0][1]) and s[0][1].decl().name().startswith('fmt_') and s[0][1].num_args() == 1:
        w = s[0][1].arg(0)
        v = w if w.size() == 64 else z3.ZeroExt(64 - w.size(), w)
    if endp.o != 0:
        e = strtoule(x)
        l = strs.str_len(eng, st, s)
        eng.assume(st, z3.ULE(e, bv(l)))
        eng.store(st, endp, Ptr(p.o, eng.addoff(p.off, conc(e), 1, ('i', 64))), ('ptr',), eng.prog.anymod())
    return [(st, v)]


@contract('strcpy', 'stpcpy')
@guard
def strcpy_(eng, st, a, ins):
    d, s = a
    ob = eng.obj(st, s.o)
    l = lit_at(eng, st, s)
    if l is not None:
        for i, b in enumerate(l + b'\0'):
            wr(eng, st, d, i, b)
        return (d,)
    n = conc(bv(c_strlen(eng, st, s)) + 1)
    r = eng.memcpy(st, d, s, n)
    return [(x, d) for x in r]


@contract('memcpy', 'memmove')
@guard
def memcpy_(eng, st, a, ins):
    return [(s, a[0]) for s in eng.memcpy(st, a[0], a[1], a[2])]


@contract('memset')
@guard
def memset_(eng, st, a, ins):
    return [(s, a[0]) for s in eng.memset(st, a[0], conc(z3.Extract(7, 0, bv(a[1], 32))), a[2])]


@contract('strnlen')
@guard
def strnlen_(eng, st, a, ins):
    n = bv(c_strlen(eng, st, a[0]))
    return (conc(z3.If(z3.ULE(n, bv(a[1])), n, bv(a[1]))),)


# errno ---------------------------------------------------------------------
@contract('__errno_location')
def errno_location(eng, st, a, ins):
    if 'errno' not in st.mem:
        st.mem['errno'] = Obj('cells', 4, {0: (4, eng.fresh('errno', 32))}, 'errno')
    return (Ptr('errno', 0),)


def set_errno(eng, st, v=None):
    if v is None:
        v = eng.fresh('errno', 32)
        eng.assume(st, v != 0)
    st.mem['errno'] = Obj('cells', 4, {0: (4, v)}, 'errno')


@contract('strerror', 'g_strerror')
def strerror_(eng, st, a, ins):
    return (strs.new_sym_str(eng, st, 'strerror'),)


def std(eng):
    eng.byte_mode = getattr(eng, 'byte_mode', True)
    eng.contracts.update(CT)
    return eng

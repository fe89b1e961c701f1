"""Abstract strings.

A string value is a tuple of parts: ('lit', bytes) | ('sym', z3 Int).  Symbolic atoms stand for arbitrary strings
(identified by an integer; equal integers are equal strings); literals are interned to fixed integers, so equality
of single atoms is integer equality.  slen / schar give the length and characters of an atom."""
import z3
from sym import Ptr, Obj, NULL, Unsupported, bv, conc

I = z3.IntSort()
B64 = z3.BitVecSort(64)
B8 = z3.BitVecSort(8)
slen = z3.Function('slen', I, B64)
schar = z3.Function('schar', I, B64, B8)
sarr = z3.Function('sarr', I, z3.ArraySort(B64, B8))
suffix = z3.Function('suffix', I, B64, I)
prefixn = z3.Function('prefixn', I, B64, I)
catf = z3.Function('cat', I, I, I)

_lits = {b'': 0}


def lit_id(b):
    if b not in _lits:
        _lits[b] = -1 - len(_lits)     # literals: 0, -1, -2 ...; symbolic atoms may equal them
    return _lits[b]


def lit_of(i):
    for b, k in _lits.items():
        if k == i:
            return b
    return None


def lit(b):
    if isinstance(b, str):
        b = b.encode('utf-8', 'surrogateescape')
    return (('lit', b),) if b else ()


def sym(x):
    return (('sym', x),)


def norm(parts):
    out = []
    for p in parts:
        if p[0] == 'lit':
            if not p[1]:
                continue
            if out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + p[1])
                continue
        out.append(p)
    return tuple(out)


def cat(*ss):
    r = []
    for s in ss:
        r.extend(s)
    return norm(r)


def is_lit(s):
    return len(s) == 0 or (len(s) == 1 and s[0][0] == 'lit')


def lit_val(s):
    if len(s) == 0:
        return b''
    return s[0][1]


def part_id(p):
    if p[0] == 'lit':
        return z3.IntVal(lit_id(p[1]))
    return p[1]


def to_id(s):
    """A single integer term for the whole string (concatenation is an uninterpreted function)."""
    if len(s) == 0:
        return z3.IntVal(0)
    t = part_id(s[-1])
    for p in reversed(s[:-1]):
        t = catf(part_id(p), t)
    return t


def from_id(x):
    if isinstance(x, int):
        return lit(lit_of(x))
    x = z3.simplify(x)
    if z3.is_int_value(x):
        b = lit_of(x.as_long())
        if b is not None:
            return lit(b)
    if z3.is_app(x) and x.decl().name() == 'cat':
        return cat(from_id(x.arg(0)), from_id(x.arg(1)))
    return (('sym', x),)


def str_len(eng, st, s):
    n = 0
    t = None
    for p in s:
        if p[0] == 'lit':
            n += len(p[1])
        else:
            l = slen(p[1])
            eng.assume(st, z3.ULT(l, z3.BitVecVal(1 << 40, 64)))
            eng.assume(st, (l == 0) == (p[1] == 0))
            t = l if t is None else t + l
    if t is None:
        return n
    return conc(t + n) if n else t


def str_char(eng, st, s, off):
    """Character at off (0 at the terminator)."""
    off = conc(off)
    if isinstance(off, int):
        o = off
        for i, p in enumerate(s):
            if p[0] == 'lit':
                if o < len(p[1]):
                    return p[1][o]
                o -= len(p[1])
            else:
                if i == len(s) - 1 and True:
                    return sym_char(eng, st, p[1], o)
                # inside symbolic atom followed by more: only position 0.. < len known symbolically
                l = str_len(eng, st, (p,))
                rest = s[i + 1:]
                oo = z3.BitVecVal(o, 64)
                c1 = sym_char(eng, st, p[1], o)
                c2 = str_char_sym(eng, st, rest, oo - l)
                return conc(z3.If(z3.ULT(oo, l), bv(c1, 8), bv(c2, 8)))
        return 0
    return str_char_sym(eng, st, s, off)


def sym_char(eng, st, x, o):
    if isinstance(o, int):
        o = z3.BitVecVal(o, 64)
    c = schar(x, o)
    l = slen(x)
    eng.assume(st, z3.ULT(l, z3.BitVecVal(1 << 40, 64)))
    eng.assume(st, (l == 0) == (x == 0))
    eng.assume(st, z3.Implies(z3.ULT(o, l), c != 0))
    eng.assume(st, z3.Implies(o == l, c == 0))
    return c


def str_char_sym(eng, st, s, off):
    if not s:
        return 0
    p = s[0]
    if p[0] == 'lit':
        r = str_char(eng, st, s[1:], conc(off - len(p[1]))) if s[1:] else 0
        r = bv(r, 8)
        for i in range(len(p[1]) - 1, -1, -1):
            r = z3.If(off == i, z3.BitVecVal(p[1][i], 8), r)
        return r
    c = sym_char(eng, st, p[1], off)
    if not s[1:]:
        return c
    l = slen(p[1])
    r = str_char(eng, st, s[1:], conc(off - l))
    return z3.If(z3.ULT(off, l), c, bv(r, 8))


def eq(a, b):
    """z3 Bool (or python bool) for equality of two abstract strings."""
    a, b = norm(a), norm(b)
    while a and b:
        x, y = a[0], b[0]
        if x[0] == 'lit' and y[0] == 'lit':
            n = min(len(x[1]), len(y[1]))
            if x[1][:n] != y[1][:n]:
                return False
            a = norm((('lit', x[1][n:]),) + a[1:])
            b = norm((('lit', y[1][n:]),) + b[1:])
            continue
        if x[0] == 'sym' and y[0] == 'sym' and x[1].eq(y[1]):
            a, b = a[1:], b[1:]
            continue
        break
    while a and b:
        x, y = a[-1], b[-1]
        if x[0] == 'lit' and y[0] == 'lit':
            n = min(len(x[1]), len(y[1]))
            if x[1][len(x[1]) - n:] != y[1][len(y[1]) - n:]:
                return False
            a = norm(a[:-1] + (('lit', x[1][:len(x[1]) - n]),))
            b = norm(b[:-1] + (('lit', y[1][:len(y[1]) - n]),))
            continue
        if x[0] == 'sym' and y[0] == 'sym' and x[1].eq(y[1]):
            a, b = a[:-1], b[:-1]
            continue
        break
    if not a and not b:
        return True
    if not a or not b:
        r = a or b
        if any(p[0] == 'lit' for p in r):
            return False
        return z3.And([p[1] == 0 for p in r])
    if len(a) == 1 and len(b) == 1:
        return part_id(a[0]) == part_id(b[0])
    return to_id(a) == to_id(b)


def new_sym_str(eng, st, name, nonempty=False):
    x = eng.fresh_int(name)
    p = new_str(eng, st, sym(x), name)
    if nonempty:
        eng.assume(st, x != 0)
    return p


def new_str(eng, st, parts, name='str', ro=False):
    i = eng.newid()
    st.mem[i] = Obj('str', None, norm(parts), name, ro=ro)
    return Ptr(i, 0)


def astr(eng, st, p):
    """The abstract string a char pointer points to."""
    if p.o == 0:
        eng.fail(st, 'string function on null pointer', 'memory')
        raise PathDead()
    ob = eng.obj(st, p.o)
    if not ob.live:
        eng.fail(st, 'use of freed string %s' % ob.name, 'memory')
        raise PathDead()
    off = conc(p.off)
    if ob.kind == 'str':
        return drop(eng, st, ob.data, off)
    if ob.kind == 'const' and isinstance(off, int):
        b = ob.data[off:]
        k = b.find(b'\0')
        if k < 0:
            eng.fail(st, 'unterminated constant string', 'memory')
            raise PathDead()
        return lit(b[:k])
    if ob.kind == 'cells' and isinstance(off, int):
        out = bytearray()
        i = off
        good = True
        while True:
            c = ob.data.get(i)
            if c is None and ob.lazy is not None:
                v = eng.load(st, Ptr(p.o, i), ('i', 8), eng.prog.anymod())
                c = (1, v)
            if c is None or not isinstance(c[1], int):
                good = False
                break
            v = c[1] & 0xff
            if c[0] != 1:
                good = False
                break
            if v == 0:
                break
            out.append(v)
            i += 1
        if good:
            return lit(bytes(out))
        ob = eng.to_bytes(st, p.o)
    if ob.kind in ('bytes', 'const', 'cells'):
        ob = eng.to_bytes(st, p.o)
        return sym(str_of(ob.data, bv(off)))
    raise Unsupported('string content of %s object %s' % (ob.kind, ob.name))


str_of = z3.Function('str_of', z3.ArraySort(B64, B8), B64, I)


class PathDead(Exception):
    pass


def drop(eng, st, s, off):
    if isinstance(off, int):
        i = 0
        while off and i < len(s):
            p = s[i]
            if p[0] == 'lit':
                if off <= len(p[1]):
                    return norm((('lit', p[1][off:]),) + s[i + 1:])
                off -= len(p[1])
                i += 1
            else:
                break
        if off == 0:
            return norm(s[i:])
        s = s[i:]
        if not s:
            return ()
        off = z3.BitVecVal(off, 64)
    if len(s) == 1 and s[0][0] == 'sym':
        return mk_suffix(eng, st, s[0][1], off)
    # whole concat as one id
    if len(s) and s[0][0] == 'sym':
        # off == len of first atom?
        l = slen(s[0][1])
        if z3.simplify(off - l).eq(z3.BitVecVal(0, 64)):
            return norm(s[1:])
    x = to_id(s)
    return mk_suffix(eng, st, x, off)


def mk_suffix(eng, st, x, off):
    return sym(suffix(x, off))


def str_to_array(eng, st, s):
    ln = str_len(eng, st, s)
    if is_lit(s):
        return eng.arr_of_bytes(lit_val(s) + b'\0'), len(lit_val(s))
    x = to_id(s)
    a = sarr(x)

    def rax(st, o):
        c = z3.Select(a, o)
        r = [z3.Implies(z3.ULT(o, bv(ln)), c != 0), z3.Implies(o == bv(ln), c == 0)]
        if len(s) == 1:
            r.append(z3.Implies(z3.ULE(o, bv(ln)), c == schar(s[0][1], o)))
        else:
            r.append(z3.Implies(z3.ULE(o, bv(ln)), c == bv(str_char(eng, st, s, o), 8)))
        return z3.And(r)
    eng.add_rax(st, a, rax)
    return a, ln

"""Contracts of the C++ and Xapian operations notmuch's library uses, for units that execute library functions: strings
are abstract strings, documents and databases are whatever the unit's monitor makes of the events, and every operation
that touches the database may throw."""
import z3
import libc
import strs
import cli
from sym import Ptr, NULL, Undef, Unsupported, Obj, bv, conc
from libc import guard
from strs import astr, new_str, new_sym_str, eq, cat, lit, PathDead
from prog import xti

DBERR = xti('DatabaseError')
MODIFIED = xti('DatabaseModifiedError')
INVALID = xti('InvalidArgumentError')
NOTFOUND = xti('DocNotFoundError')


def throw(st, ty=DBERR, what='database'):
    s = st.fork()
    s.event('%s throws %s' % (what, ty))
    return (s, 'throw', (Ptr('exc', 0), ty))


def sstr(e, st, p):
    """The value of the std::string at p."""
    v = e.load(st, Ptr(p.o, p.off), ('ptr',), e.prog.anymod())
    if v is None:
        raise PathDead()
    if not isinstance(v, Ptr) or v.o == 0:
        raise Unsupported('std::string without value')
    return astr(e, st, v)


def setstr(e, st, p, parts, name='string'):
    v = parts if isinstance(parts, Ptr) else new_str(e, st, parts, name)
    if not e.store(st, Ptr(p.o, p.off), v, ('ptr',), e.prog.anymod()):
        raise PathDead()
    return v


def install(e):
    """std::string, exceptions."""
    S = 'std::__cxx11::basic_string::'
    e.mem_exc = None

    @guard
    def ctor(en, st, a, ins):
        if len(a) == 1 or a[1] is None:
            setstr(en, st, a[0], ())
        elif len(a) >= 3 and isinstance(a[2], int) or len(a) >= 4:
            n = conc(a[2])
            if a[1].o in st.mem and is_string_obj(en, st, a[1]):
                raise Unsupported('std::string substring')
            p = astr(en, st, a[1])
            l = strs.str_len(en, st, p)
            if not z3.is_true(z3.simplify(bv(l) == bv(n))):
                raise Unsupported('std::string(ptr, len)')
            setstr(en, st, a[0], p)
        else:
            setstr(en, st, a[0], val(en, st, a[1]))
        return (None,)

    def is_string_obj(en, st, p):
        """A pointer to a std::string object (its first cell holds the value) as opposed to characters."""
        ob = en.obj(st, p.o)
        if ob.kind != 'cells':
            return False
        c = ob.data.get(conc(p.off))
        return c is not None and c[0] == 8 and isinstance(c[1], Ptr) and c[1].o in st.mem and st.mem[c[1].o].kind == 'str'

    def val(en, st, p):
        return sstr(en, st, p) if is_string_obj(en, st, p) else astr(en, st, p)
    e.cxx_val = val

    @guard
    def dtor(en, st, a, ins):
        ob = en.obj(st, a[0].o)
        if ob.kind == 'cells':
            c = ob.data.get(conc(a[0].off))
            if c is not None and isinstance(c[1], Ptr) and c[1].o in st.mem and st.mem[c[1].o].kind == 'str' and not st.mem[c[1].o].ro:
                st.mem[c[1].o] = st.mem[c[1].o].copy(live=False)
        return (None,)

    @guard
    def c_str(en, st, a, ins):
        sstr(en, st, a[0])
        return (en.load(st, a[0], ('ptr',), en.prog.anymod()),)

    @guard
    def length(en, st, a, ins):
        return (conc(bv(strs.str_len(en, st, sstr(en, st, a[0])))),)

    @guard
    def empty(en, st, a, ins):
        return (cond(bv(strs.str_len(en, st, sstr(en, st, a[0]))) == 0),)

    @guard
    def equal(en, st, a, ins):
        return (cond(eq(val(en, st, a[0]), val(en, st, a[1]))),)

    @guard
    def nequal(en, st, a, ins):
        r = eq(val(en, st, a[0]), val(en, st, a[1]))
        return (cond((not r) if isinstance(r, bool) else z3.Not(r)),)

    @guard
    def assign(en, st, a, ins):
        setstr(en, st, a[0], val(en, st, a[1]))
        return (a[0],)

    @guard
    def append(en, st, a, ins):
        v = a[1]
        t = val(en, st, v) if isinstance(v, Ptr) else None
        if t is None:
            c = conc(v)
            if not isinstance(c, int):
                raise Unsupported('std::string += computed character')
            t = lit(bytes([c & 255]))
        setstr(en, st, a[0], cat(sstr(en, st, a[0]), t))
        return (a[0],)

    @guard
    def plus(en, st, a, ins):
        # result by hidden pointer
        setstr(en, st, a[0], cat(val(en, st, a[1]), val(en, st, a[2])))
        return (None,)
    C = e.contracts
    C[S + 'basic_string'] = ctor
    C[S + '~basic_string'] = dtor
    C[S + 'c_str'] = C[S + 'data'] = c_str
    C[S + 'length'] = C[S + 'size'] = length
    C[S + 'empty'] = empty
    C[S + 'operator='] = assign
    C[S + 'operator+='] = C[S + 'append'] = append
    C['std::operator=='] = equal
    C['std::operator!='] = nequal
    C['std::operator+'] = plus
    cli.ignore(e, 'std::allocator::allocator', 'std::allocator::~allocator', 'std::__new_allocator::~__new_allocator', 'std::__new_allocator::__new_allocator',
               '__cxa_end_catch', '__cxa_free_exception', '_log_xapian_exception', '_notmuch_database_log', '_notmuch_database_log_append')
    for t in ('Error', 'InvalidArgumentError', 'DatabaseModifiedError', 'DocNotFoundError', 'DatabaseError'):
        cli.ignore(e, 'Xapian::%s::%s' % (t, t), 'Xapian::%s::~%s' % (t, t))

    @guard
    def begin_catch(en, st, a, ins):
        return (exc_obj(en, st),)
    C['__cxa_begin_catch'] = C['__cxa_get_exception_ptr'] = begin_catch

    @guard
    def get_msg(en, st, a, ins):
        return (new_strobj(en, st, 'error message'),)
    for n in ('get_msg', 'get_type', 'get_description'):
        C['Xapian::Error::' + n] = get_msg if n == 'get_msg' else hidden_str

    def terminate(en, st, a, ins):
        en.fail(st, 'std::terminate is reached', 'post')
        return []
    C['std::terminate'] = C['__clang_call_terminate'] = terminate

    @guard
    def ser(en, st, a, ins):
        t = a[1]
        setstr(en, st, a[0], strs.sym(serid(t)), 'serialised')
        return (None,)
    C['Xapian::sortable_serialise'] = ser


@guard
def hidden_str(en, st, a, ins):
    setstr(en, st, a[0], new_sym_str(en, st, 'text'))
    return (None,)


def serid(t):
    """A string per serialised number (only equality of numbers matters)."""
    return z3.Int('serialised(%s)' % (getattr(t, 't', t),))


def exc_obj(en, st):
    if 'exc' not in st.mem:
        st.mem['exc'] = Obj('opaque', 0, None, 'exception')
    return Ptr('exc', 0)


def new_strobj(en, st, name):
    return en.alloc(st, 'cells', 32, {0: (8, new_sym_str(en, st, name))}, name)


def cond(c):
    """An i1 result."""
    if isinstance(c, bool):
        return int(c)
    return conc(c)


class Struct:
    """Field access by name, offsets taken from the debug information of the current tree."""

    def __init__(self, e, name):
        self.e = e
        self.f = e.prog.fields(name)
        self.size = e.prog.struct_size(name)

    def off(self, n):
        if n not in self.f:
            raise Unsupported('no field %s' % n)
        v = self.f[n]
        return v[0] if isinstance(v, tuple) else v

    def width(self, n):
        return self.f[n][1]

    def ptr(self, base, n):
        return Ptr(base.o, conc(bv(base.off) + self.off(n)) if not isinstance(base.off, int) else base.off + self.off(n))

    def get(self, st, base, n, ty):
        return self.e.load(st, self.ptr(base, n), ty, self.e.prog.anymod())

    def set(self, st, base, n, v, ty):
        return self.e.store(st, self.ptr(base, n), v, ty, self.e.prog.anymod())

"""Contracts shared by the checks of the command line programs: option parsing, notmuch library objects, and a ghost
model of the file system calls a command makes (nmv/cli.py: every call may fail, every failure sets errno)."""
import z3
import libc
import strs
from sym import Ptr, NULL, Undef, Split, Unsupported, bv, conc
from libc import guard, set_errno
from strs import astr, new_sym_str, eq, cat, lit, is_lit, lit_val, PathDead

OPT_SIZE = 96
F_INHERIT, F_BOOL, F_INT, F_KEYWORD, F_FLAGS, F_STRING, F_POS, F_NOARG, F_NAME, F_PRESENT = range(0, 80, 8)


def truth(v):
    """A C bool as a formula."""
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, int):
        return z3.BoolVal(v & 1 == 1)
    return z3.Extract(0, 0, v) == 1


def ignore(eng, *names):
    for n in names:
        eng.contracts[n] = lambda e, st, a, ins: ((0 if ins is not None and ins.res else None),)


def any_int(w=32):
    def f(e, st, a, ins):
        return (e.fresh('r', w),)
    return f


def const(v):
    return lambda e, st, a, ins: (v,)


def two(name, st, good, bad, effect=None):
    s2 = st.fork()
    st.event(name)
    s2.event(name + ' fails')
    return [(st, good), (s2, bad)]


def status_contract(ghost=None):
    """notmuch_status_t: success or any other status."""
    def f(e, st, a, ins):
        s2 = st.fork()
        r = e.fresh('status', 32)
        e.assume(s2, z3.And(r != 0, z3.ULT(r, 64)))
        if ghost:
            st.ghost[ghost], s2.ghost[ghost] = 'ok', 'failed'
            st.event(ghost)
            s2.event(ghost + ' fails')
        return [(st, 0), (s2, r)]
    return f


def stdio(eng):
    """Diagnostics are not part of the claims that use this."""
    for n in ('fprintf', 'fputs', 'puts', 'printf', 'fputc', 'putchar', 'fflush', 'perror', 'fwrite', 'vfprintf', 'putc', '__fprintf_chk', 'dprintf'):
        eng.contracts[n] = (lambda e, st, a, ins: (e.fresh('io', 32) if ins.res else None,)) if n != 'fwrite' else \
            (lambda e, st, a, ins: (e.fresh('io', 64),))


def opaque(eng, st, name):
    return eng.alloc(st, 'opaque', 0, None, name)


def havoc_opts(eng, st, desc):
    """All variables named by an option table get arbitrary values (strings: any string or what they were)."""
    ob = eng.obj(st, desc.o)
    if ob.kind != 'cells':
        raise Unsupported('option table of kind %s' % ob.kind)
    base = conc(desc.off)
    names = {}
    for off, (sz, v) in ob.data.items():
        if (off - base) % OPT_SIZE == F_NAME and isinstance(v, Ptr) and v.o:
            names[(off - base) // OPT_SIZE] = lit_val(astr(eng, st, v)).decode()
    states = [st]
    eng.optcells = {}
    for off, (sz, v) in sorted(ob.data.items()):
        if sz != 8 or not isinstance(v, Ptr) or v.o == 0:
            continue
        f, i = (off - base) % OPT_SIZE, (off - base) // OPT_SIZE
        npc, rax0 = len(st.pc), set(st.rax)
        if f in (F_BOOL, F_PRESENT):
            x = eng.fresh('opt_' + names.get(i, '?'), 8)
            eng.assume(st, z3.ULE(x, 1))
        elif f in (F_INT, F_KEYWORD, F_FLAGS):
            x = eng.fresh('opt_' + names.get(i, '?'), 32)
        elif f in (F_STRING, F_POS):
            x = new_sym_str(eng, st, 'opt_' + names.get(i, '?'))
        else:
            continue
        eng.optcells[names.get(i, '?')] = (v.o, conc(v.off))
        unset = []
        for s in states:
            if isinstance(x, Ptr):
                u = s.fork()   # the option is not given
                u.ghost['opt:' + names.get(i, '?')] = u.mem[v.o].data[conc(v.off)][1].o
                unset.append(u)
                s.mem[x.o] = st.mem[x.o]
            if s is not st:
                for c in st.pc[npc:]:
                    eng.assume(s, c)
                for k in set(st.rax) - rax0:
                    s.rax[k] = st.rax[k]
            t = eng.obj(s, v.o)
            if t.kind != 'cells':
                raise Unsupported('option variable of kind %s' % t.kind)
            d = dict(t.data)
            d[conc(v.off)] = (1 if f in (F_BOOL, F_PRESENT) else 4 if f in (F_INT, F_KEYWORD, F_FLAGS) else 8, x)
            s.mem[v.o] = t.copy(data=d)
            if f != F_PRESENT:
                s.ghost['opt:' + names.get(i, '?')] = x if not isinstance(x, Ptr) else x.o
        states += unset
    return states


@guard
def parse_arguments(eng, st, a, ins):
    bad = st.fork()
    argc = bv(a[0], 32)
    r = eng.fresh('opt_index', 32)
    eng.assume(st, z3.And(r > 0, r <= argc))
    bad.event('parse_arguments fails')
    return [(s, r) for s in havoc_opts(eng, st, a[2])] + [(bad, (1 << 32) - 1)]


class Fs:
    """Ghost file system: hooks are called for each system call with the outcome chosen.  Subclasses implement
    on_open / on_write ... and return a list of (state, value) outcomes, or None for the default."""

    def __init__(self, eng):
        self.eng = eng
        self.nfd = 100
        for n in ('open', 'close', 'fsync', 'rename', 'unlink', 'write', 'read', 'mkdir', 'stat', 'mkstemp', 'fdatasync', 'link', 'remove', 'creat', 'open64', 'ftruncate', 'symlink', 'rmdir'):
            if hasattr(self, 'c_' + n):
                eng.contracts[n] = guard(getattr(self, 'c_' + n))

    def fail(self, st, what, value=(1 << 32) - 1):
        s = st.fork()
        set_errno(self.eng, s)
        s.event(what + ' fails')
        return s, value

    def newfd(self):
        self.nfd += 1
        return self.nfd

    def c_close(self, e, st, a, ins):
        fd = conc(a[0])
        self.closed(st, fd)
        return [self.fail(st, 'close'), (st, 0)]

    def closed(self, st, fd):
        pass


def same_path(eng, st, p, q):
    r = eq(p, q)
    return z3.BoolVal(r) if isinstance(r, bool) else r

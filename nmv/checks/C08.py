"""C08: notmuch insert delivers completely and durably, or not at all."""
import z3
import libc
import strs
import cli
from sym import Ptr, NULL, State, Undef, Split, Unsupported, bv, conc
from framework import Unit
from libc import guard, set_errno
from strs import astr, new_sym_str, eq, cat, lit, PathDead, norm

TITLE = 'insert delivers completely and durably, or not at all'
SOURCES = ['notmuch-insert.c', 'util/string-util.c']
ASSUMPTIONS = ['system calls behave as POSIX says (a failing call has no effect, fsync that succeeds makes data durable)',
               'the SIGINT handler only ever sets its flag']
HDR = b'X-Envelope-From: '
B64 = z3.BitVecSort(64)


def C(n):
    return z3.BitVecVal(n, 64)


class Mon(cli.Fs):
    """Ghost state: c.* the bytes last read from standard input and how many of them have been written; file: where the
    new message file is; sync / dirsync; eof."""

    def init(self, st):
        e = self.eng
        st.ghost.update({'c.obj': None, 'c.arr': ARR0, 'c.off': C(0), 'c.r': C(0), 'c.pos': C(0), 'c.hpos': C(0), 'c.n': 0,
                         'file': None, 'path': (), 'fd': None, 'eof': False, 'sync': False, 'dirsync': False, 'dirfd': None,
                         'folder_ok': None, 'idx': None, 'tag': None, 'flags': None, 'closedb': None, 'removed': False, 'renamed_ok': False})

    def touch(self, st, what):
        e = self.eng
        ok = st.ghost['folder_ok']
        if ok is None:
            e.fail(st, '%s happens only after the folder name was checked' % what, 'order')
            raise PathDead()

    # ---- system calls
    def c_open(self, e, st, a, ins):
        self.touch(st, 'open')
        p = astr(e, st, a[0])
        fl = conc(a[1])
        if not isinstance(fl, int):
            raise Unsupported('open with computed flags')
        out = [self.fail(st, 'open')]
        fd = self.newfd()
        if fl & 3:      # for writing
            e.prove(st, z3.BoolVal(bool(fl & 0o100) and bool(fl & 0o200)), 'the message file is created exclusively (O_CREAT|O_EXCL)', 'post')
            e.prove(st, z3.BoolVal(st.ghost['file'] in (None, 'unlinked')), 'only one message file is created', 'post')
            md = st.ghost.get('maildir')
            pre = cat(md, lit(b'/tmp/')) if md is not None else None
            n = norm(p)
            e.prove(st, z3.BoolVal(pre is not None and in_dir(n, md, b'tmp') is not None), 'the file is created in tmp/ of the folder', 'post')
            st.ghost.update({'file': 'tmp', 'path': p, 'fd': fd, 'sync': False})
        else:
            st.ghost['dirfd'] = (fd, p)
        st.event('open', str(p))
        return out + [(st, fd)]

    def c_read(self, e, st, a, ins):
        fd = conc(a[0])
        e.prove(st, z3.BoolVal(fd == 0), 'the message is read from standard input', 'post')
        e.prove(st, self.drained(st), 'every byte read so far has been written before more is read', 'post')
        out = [self.fail(st, 'read', (1 << 64) - 1)]
        z = st.fork()
        z.ghost['eof'] = True
        z.event('read: end of file')
        out.append((z, 0))
        e.prove(st, z3.BoolVal(not st.ghost['eof']), 'nothing is read after end of file', 'post') if False else None
        r = e.fresh('nread', 64)
        n = bv(a[2])
        e.assume(st, z3.And(z3.UGE(r, 1), z3.ULE(r, n)))
        p = a[1]
        ob = e.to_bytes(st, p.o)
        e.prove(st, z3.And(z3.ULE(bv(p.off), bv(ob.size)), z3.ULE(n, bv(ob.size) - bv(p.off))), 'read stays in its buffer', 'memory')
        arr = e.fresh_arr('chunk')
        st.mem[p.o] = ob.copy(data=arr)
        st.ghost.update({'c.obj': p.o, 'c.arr': arr, 'c.off': bv(p.off), 'c.r': r, 'c.pos': C(0), 'c.hpos': C(0),
                         'c.n': min(2, st.ghost['c.n'] + 1)})
        st.event('read: some bytes')
        return out + [(st, r)]

    def drained(self, st):
        g = st.ghost
        return z3.And(g['c.pos'] == g['c.r'], z3.Or(g['c.hpos'] == 0, g['c.hpos'] == len(HDR)))

    def c_write(self, e, st, a, ins):
        g = st.ghost
        fd = conc(a[0])
        if fd == 2:
            return (e.fresh('io', 64),)
        e.prove(st, z3.BoolVal(g['fd'] == fd and g['file'] == 'tmp'), 'bytes are written to the new file while it is in tmp/', 'post')
        p, n = a[1], bv(a[2])
        r = e.fresh('nwritten', 64)
        out = [self.fail(st, 'write', (1 << 64) - 1)]
        l = libc.lit_at(e, st, p) if p.o != g['c.obj'] else None
        st.ghost['sync'] = False
        if p.o == g['c.obj']:
            ob = e.to_bytes(st, p.o)
            same = z3.BoolVal(True) if ob.data.eq(g['c.arr']) else ob.data == g['c.arr']
            e.prove(st, same, 'the bytes written are the bytes read', 'post')
            e.prove(st, z3.And(bv(p.off) == g['c.off'] + g['c.pos'], z3.ULE(n, g['c.r'] - g['c.pos']), z3.ULE(g['c.pos'], g['c.r'])),
                    'bytes are written in order, none skipped, none twice', 'post')
            e.prove(st, z3.Or(g['c.hpos'] == 0, g['c.hpos'] == len(HDR)), 'the envelope header is complete', 'post')
            e.assume(st, z3.ULE(r, n))
            st.ghost['c.pos'] = g['c.pos'] + r
        elif e.obj(st, p.o).kind == 'const':
            data = e.obj(st, p.o).data
            i = data.find(b'\0')
            e.prove(st, z3.BoolVal(data[:i] == HDR and g['c.n'] == 1), 'nothing but the envelope header is added, at the start only', 'post')
            ch = [z3.Select(g['c.arr'], g['c.off'] + j) for j in range(5)]
            first = z3.And([z3.UGE(g['c.r'], 5)] + [c == b for c, b in zip(ch, b'From ')])
            e.prove(st, z3.And(first, z3.If(g['c.hpos'] == 0, z3.Or(g['c.pos'] == 0, g['c.pos'] == 5), g['c.pos'] == 5)), 'the envelope header replaces a leading "From " only', 'post')
            e.prove(st, z3.And(bv(p.off) == g['c.hpos'], z3.ULE(n, C(len(HDR)) - g['c.hpos']), z3.ULE(g['c.hpos'], len(HDR))), 'the envelope header is written once, in order', 'post')
            e.assume(st, z3.ULE(r, n))
            st.ghost['c.hpos'] = g['c.hpos'] + r
            st.ghost['c.pos'] = C(5)
        else:
            e.fail(st, 'only bytes read from standard input are written to the file', 'post')
            raise PathDead()
        st.event('write: some bytes')
        return out + [(st, r)]

    def closed(self, st, fd):
        if fd == st.ghost['fd']:
            st.ghost['fd'] = None
        if st.ghost['dirfd'] and st.ghost['dirfd'][0] == fd:
            st.ghost['dirfd'] = None

    def c_fsync(self, e, st, a, ins):
        fd = conc(a[0])
        out = [self.fail(st, 'fsync')]
        if fd == st.ghost['fd']:
            st.ghost['sync'] = True
        elif st.ghost['dirfd'] and st.ghost['dirfd'][0] == fd:
            if st.ghost['file'] == 'new' and in_dir(st.ghost['path'], st.ghost['dirfd'][1], None) is not None:
                st.ghost['dirsync'] = True
        st.event('fsync')
        return out + [(st, 0)]

    c_fdatasync = c_fsync

    def c_rename(self, e, st, a, ins):
        p, q = astr(e, st, a[0]), astr(e, st, a[1])
        g = st.ghost
        e.prove(st, z3.And(z3.BoolVal(g['file'] == 'tmp'), cli.same_path(e, st, p, g['path'])), 'what is moved into new/ is the file written', 'post')
        e.prove(st, z3.And(z3.BoolVal(g['eof']), self.drained(st)), 'the file is complete (all of standard input) before it is moved into new/', 'post')
        e.prove(st, z3.BoolVal(g['sync']), 'the file is fsynced, after its last write, before it is moved into new/', 'order')
        name = in_dir(norm(p), g.get('maildir'), b'tmp')
        name2 = in_dir(norm(q), g.get('maildir'), b'new')
        e.prove(st, z3.BoolVal(name is not None and name2 is not None) if name != name2 else z3.BoolVal(name is not None), 'the file is moved to new/ of the same folder', 'post')
        if name is not None and name2 is not None:
            e.prove(st, cli.same_path(e, st, name, name2), 'the file keeps its unique name', 'post')
        out = [self.fail(st, 'rename')]
        st.ghost.update({'file': 'new', 'path': q, 'dirsync': False})
        st.event('rename')
        return out + [(st, 0)]

    def c_unlink(self, e, st, a, ins):
        p = astr(e, st, a[0])
        g = st.ghost
        hit = g['file'] in ('tmp', 'new') and eq(p, g['path']) is True
        e.prove(st, z3.BoolVal(hit), 'only the file this delivery created is removed', 'post')
        if hit:
            st.ghost['file'] = 'unlinked'
        st.event('unlink')
        return [self.fail(st, 'unlink'), (st, 0)]

    c_remove = c_unlink


def in_dir(p, d, sub):
    """The part of path p below d/sub/ (one component), or None."""
    if d is None:
        return None
    pre = norm(d) + ((('lit', b'/' + sub + b'/'),) if sub else (('lit', b'/'),))
    p, pre = norm(p), norm(pre)
    if not pre or len(p) < len(pre):
        return None
    for x, y in zip(p[:len(pre) - 1], pre[:-1]):
        if x[0] != y[0] or not (x[1] == y[1] if x[0] == 'lit' else x[1].eq(y[1])):
            return None
    x, y = p[len(pre) - 1], pre[-1]
    if x[0] != 'lit' or y[0] != 'lit' or not x[1].startswith(y[1]):
        return None
    rest = norm((('lit', x[1][len(y[1]):]),) + p[len(pre):])
    for r in rest:
        if r[0] == 'lit' and b'/' in r[1]:
            return None
    return rest


def loop_templates(e):
    keys = ('c.pos', 'c.r', 'c.hpos')

    def templ(entry):
        run = entry.runner
        r = []
        g0 = entry.ghosts

        def gv(v, k):
            x = v.ghosts.get(k)
            return x if isinstance(x, z3.ExprRef) else None
        r.append(('all of the bytes read are written', lambda v: z3.And(v.ghosts['c.pos'] == v.ghosts['c.r'], z3.Or(v.ghosts['c.hpos'] == 0, v.ghosts['c.hpos'] == len(HDR)))))
        r.append(('written <= read', lambda v: z3.ULE(v.ghosts['c.pos'], v.ghosts['c.r'])))
        r.append(('header position in range', lambda v: z3.ULE(v.ghosts['c.hpos'], len(HDR))))
        r.append(('header skips five bytes', lambda v: z3.Implies(v.ghosts['c.hpos'] != 0, v.ghosts['c.pos'] == 5)))
        r.append(('at five bytes', lambda v: v.ghosts['c.pos'] == 5))
        r.append(('at five or no bytes', lambda v: z3.Or(v.ghosts['c.pos'] == 5, z3.And(v.ghosts['c.pos'] == 0, v.ghosts['c.hpos'] == 0))))
        for x in run.ivars:
            ex = entry.int(x)
            if ex is None:
                continue
            for k in ('c.pos', 'c.hpos'):
                ek = g0.get(k)
                for nm, f in (('-', lambda i, j: i - j), ('+', lambda i, j: i + j)):
                    d = f(ex, ek)
                    r.append(('%s %s %s constant' % (x, nm, k), one(x, lambda v, i, k=k, f=f, d=d: f(i, v.ghosts[k]) == d)))
            r.append(('%s > 0' % (x,), one(x, lambda v, i: i > 0)))
            r.append(('%s >= 0' % (x,), one(x, lambda v, i: i >= 0)))
            r.append(('%s <= entry' % (x,), one(x, lambda v, i, ex=ex: i <= ex)))
        return r
    e.loop_templates.append(templ)


def one(x, f):
    def g(v):
        i = v.int(x)
        return None if i is None else f(v, i)
    return g


def contracts(e, m):
    cli.stdio(e)
    e.contracts['parse_arguments'] = cli.parse_arguments
    cli.ignore(e, 'notmuch_process_shared_options', 'sigemptyset', 'sigaction', 'notmuch_message_destroy', 'gettimeofday_')
    e.contracts['notmuch_database_get_default_indexopts'] = lambda en, st, a, ins: [(st.fork(), NULL), (st, cli.opaque(en, st, 'indexopts'))]
    e.contracts['notmuch_config_get'] = lambda en, st, a, ins: (new_sym_str(en, st, 'config', True),)
    e.contracts['notmuch_config_get_values'] = lambda en, st, a, ins: (cli.opaque(en, st, 'values'),)
    e.contracts['notmuch_config_values_valid'] = cli.any_int()
    cli.ignore(e, 'notmuch_config_values_move_to_next')
    e.contracts['notmuch_config_values_get'] = lambda en, st, a, ins: (new_sym_str(en, st, 'tag'),)
    e.contracts['print_status_database'] = cli.any_int()
    e.contracts['notmuch_status_to_string'] = lambda en, st, a, ins: (new_sym_str(en, st, 'msg'),)
    e.contracts['status_to_exit'] = lambda en, st, a, ins: (conc(z3.If(bv(a[0], 32) == 0, z3.BitVecVal(0, 32), z3.If(bv(a[0], 32) == 19, z3.BitVecVal(75, 32), z3.BitVecVal(1, 32)))),)
    e.contracts['tag_op_list_create'] = lambda en, st, a, ins: [(st.fork(), NULL), (st, cli.opaque(en, st, 'tagops'))]
    e.contracts['tag_op_list_append'] = cli.any_int()
    e.contracts['illegal_tag'] = lambda en, st, a, ins: [(st.fork(), NULL), (st, new_sym_str(en, st, 'err'))]
    e.contracts['notmuch_run_hook'] = cli.any_int()
    e.contracts['notmuch_database_destroy'] = cli.any_int()
    e.contracts['getpid'] = cli.any_int()
    e.contracts['__errno_location'] = libc.errno_location

    @guard
    def config_bool(en, st, a, ins):
        v = en.fresh('sync_flags', 32)
        en.assume(st, z3.ULE(v, 1))
        en.store(st, a[2], v, ('i', 32), en.prog.anymod())
        return cli.status_contract()(en, st, a, ins)
    e.contracts['notmuch_config_get_bool'] = config_bool

    @guard
    def parse_tags(en, st, a, ins):
        bad = st.fork()
        en.store(st, a[3], new_sym_str(en, st, 'query'), ('ptr',), en.prog.anymod())
        return [(bad, 1), (st, 0)]
    e.contracts['parse_tag_command_line'] = parse_tags

    @guard
    def strip(en, st, a, ins):
        # value after stripping: some string; it becomes the maildir
        x = new_sym_str(en, st, 'maildir')
        st.ghost['maildir'] = astr(en, st, x)
        st.mem[a[0].o] = st.mem[a[0].o].copy(data=astr(en, st, x))
        return (None,)
    e.contracts['strip_trailing'] = strip

    @guard
    def valid_folder(en, st, a, ins):
        bad = st.fork()
        st.ghost['folder_ok'] = a[0].o
        st.event('folder name is valid')
        en.prove(st, z3.BoolVal(st.ghost.get('opt:folder') == a[0].o), 'the folder name checked is the one given', 'post')
        return [(bad, 0), (st, 1)]
    e.contracts['is_valid_folder_name'] = valid_folder

    @guard
    def mkdir_rec(en, st, a, ins):
        m.touch(st, 'mkdir')
        return [(st.fork(), 0), (st, 1)]
    e.contracts['mkdir_recursive'] = mkdir_rec

    @guard
    def tempname(en, st, a, ins):
        return [(st.fork(), NULL), (st, new_sym_str(en, st, 'unique', True))]
    e.contracts['tempfilename'] = tempname

    @guard
    def memcpy(en, st, a, ins):
        ob = st.mem.get(a[0].o)
        n = conc(a[2])
        if ob is not None and ob.kind == 'str' and isinstance(n, int) and n < 64:
            src = libc.lit_at(en, st, a[1])
            new = None
            off = conc(a[0].off)
            parts = norm(ob.data)
            before = ()
            for i, p in enumerate(parts):
                l = strs.str_len(en, st, before)
                d = conc(bv(off) - bv(l))
                if isinstance(d, int) and p[0] == 'lit' and d + n <= len(p[1]):
                    t = p[1][:d] + src[:n] + p[1][d + n:]
                    new = norm(parts[:i] + (('lit', t),) + parts[i + 1:])
                    break
                before = before + (p,)
            if new is None or src is None or len(src) < n:
                raise Unsupported('overwriting part of an abstract string')
            st.mem[a[0].o] = ob.copy(data=new)
            return (a[0],)
        return libc.memcpy_(en, st, a, ins)
    e.contracts['memcpy'] = memcpy

    @guard
    def index_file(en, st, a, ins):
        g = st.ghost
        en.prove(st, z3.And(z3.BoolVal(g['file'] == 'new'), cli.same_path(en, st, astr(en, st, a[1]), g['path'])), 'the delivered file is what gets indexed', 'post')
        en.prove(st, z3.BoolVal(g['dirsync'] is True), 'new/ is fsynced after the rename and before indexing', 'order')
        out = []
        for v, nm in ((0, 'ok'), (enum(en, 'NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID'), 'dup'), (None, 'err')):
            s = st.fork()
            s.ghost['idx'] = nm
            s.event('index_file ' + nm)
            if v is None:
                v = en.fresh('status', 32)
                en.assume(s, z3.And(v != 0, v != enum(en, 'NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID'), z3.ULT(v, 64)))
                msg = NULL
            else:
                msg = cli.opaque(en, s, 'message')
            if a[3].o:
                en.store(s, a[3], msg, ('ptr',), en.prog.anymod())
            out.append((s, v))
        return out
    e.contracts['notmuch_database_index_file'] = index_file

    def on_msg(ghost):
        f = cli.status_contract(ghost)

        @guard
        def g(en, st, a, ins):
            if a[0].o == 0 or isinstance(a[0], Undef):
                en.fail(st, '%s on a missing message' % ghost, 'memory')
                return []
            return f(en, st, a, ins)
        return g
    e.contracts['tag_op_list_apply'] = on_msg('tag')
    e.contracts['notmuch_message_tags_to_maildir_flags'] = on_msg('flags')
    e.contracts['notmuch_indexopts_set_decrypt_policy'] = cli.status_contract()
    e.contracts['notmuch_process_shared_indexing_options'] = cli.status_contract()
    e.contracts['notmuch_database_close'] = cli.status_contract('closedb')

    @guard
    def remove_message(en, st, a, ins):
        en.prove(st, cli.same_path(en, st, astr(en, st, a[1]), st.ghost['path']), 'what is removed from the index is the delivered file', 'post')
        st.ghost['removed'] = True
        return cli.status_contract()(en, st, a, ins)
    e.contracts['notmuch_database_remove_message'] = remove_message


def enum(e, n):
    v = e.prog.enum(n)
    if v is None:
        raise Unsupported('enum ' + n)
    return v


def volatile(e, st, p, ty):
    """An interrupt flag: zero until the handler has run, then set for good."""
    old = st.ghost['intr']
    now = old | (e.fresh('sigint', 32) & 1)
    st.ghost['intr'] = now
    w = ty[1] if ty[0] == 'i' else 32
    return now if w == 32 else z3.Extract(w - 1, 0, now)


def normalize(e, st):
    """Once the buffer is gone only one fact about it matters: whether all of it had been written."""
    g = st.ghost
    o = g['c.obj']
    if o is None or (o in st.mem and st.mem[o].live):
        return
    done = z3.And(g['c.pos'] == g['c.r'], z3.Or(g['c.hpos'] == 0, g['c.hpos'] == len(HDR)))
    r = e._check(st.pc + [z3.Not(done)])[0] == z3.unsat
    g.update({'c.obj': None, 'c.arr': ARR0, 'c.off': C(0), 'c.r': C(0 if r else 1), 'c.pos': C(0), 'c.hpos': C(0)})


ARR0 = z3.Array('nochunk', B64, z3.BitVecSort(8))


def setup(ctx):
    e = ctx.engine()
    e.inject_oom = True
    e.volatile_load = volatile
    e.merge_returns = True
    e.ghost_normalize = normalize
    e.max_sym_iters, e.max_rounds, e.max_items = 0, 3, 4
    m = Mon(e)
    contracts(e, m)
    loop_templates(e)
    st = State()
    m.init(st)
    st.ghost['intr'] = z3.BitVecVal(0, 32)
    return e, m, st


def u_copy(ctx):
    """copy_fd: precondition: an empty file open for writing in tmp/, nothing read yet.  Postcondition: returns true only
    when standard input was read to its end and every byte of it written, in order."""
    e, m, st = setup(ctx)
    fd = m.newfd()
    st.ghost.update({'file': 'tmp', 'fd': fd, 'folder_ok': 1})
    seen = set()
    for s, kind, v in e.call(st, ctx.fn('copy_fd', 'notmuch-insert.c'), [fd, 0]):
        if kind != 'ret':
            e.fail(s, 'copy_fd returns', 'post')
            continue
        good, bad = e.branch(s, cli.truth(v))
        if good is not None:
            seen.add('ok')
            e.prove(good, z3.And(z3.BoolVal(good.ghost['eof']), m.drained(good)), 'copy_fd succeeds only when all of standard input was written', 'post')
            e.prove(good, z3.BoolVal(good.ghost['file'] == 'tmp' and good.ghost['fd'] == fd and good.ghost['c.n'] > 0), 'copy_fd leaves a non-empty file open', 'post')
        if bad is not None:
            seen.add('fail')
            e.prove(bad, z3.BoolVal(bad.ghost['file'] == 'tmp' and bad.ghost['fd'] == fd), 'copy_fd leaves the file to its caller', 'post')
    ctx.cover_any('copied', 'ok' in seen)
    ctx.cover_any('not copied', 'fail' in seen)


@guard
def copy_contract(e, st, a, ins):
    g = st.ghost
    e.prove(st, z3.BoolVal(g['file'] == 'tmp' and conc(a[0]) == g['fd'] and conc(a[1]) == 0 and not g['eof'] and g['c.n'] == 0), 'copy_fd is called on the new, empty file', 'pre')
    g['sync'] = False
    bad = st.fork()
    bad.ghost['c.n'] = 1
    bad.ghost['c.r'] = C(1)
    bad.event('copying standard input fails')
    g.update({'eof': True, 'c.n': 1})
    st.event('standard input copied')
    return [(st, 1), (bad, 0)]


def u_insert(ctx):
    e, m, st = setup(ctx)
    k = ctx.prog.find('copy_fd', 'notmuch-insert.c')
    if k is not None:
        e.contracts['copy_fd'] = copy_contract
    nm = cli.opaque(e, st, 'notmuch')
    argc = e.fresh('argc', 32)
    e.assume(st, z3.And(argc >= 1, argc < 100000))
    argv = new_argv(e, st)
    seen = set()
    for s, kind, v in e.call(st, ctx.fn('notmuch_insert_command', 'notmuch-insert.c'), [nm, argc, argv]):
        g = s.ghost
        if kind == 'halt':
            continue
        if kind != 'ret':
            e.fail(s, 'notmuch insert returns', 'post')
            continue
        good, bad = e.branch(s, bv(v, 32) == 0)
        for x, ok in ((good, True), (bad, False)):
            if x is None:
                continue
            g = x.ghost
            keep = g.get('opt:keep')
            keep = bv(keep, 8) != 0 if keep is not None else z3.BoolVal(False)
            if ok:
                seen.add('ok ' + str(g['idx']))
                e.prove(x, z3.BoolVal(g['file'] == 'new' and g['dirsync'] is True), 'success: the message is in new/, durably', 'post')
                e.prove(x, z3.Or(keep, z3.BoolVal(g['idx'] in ('ok', 'dup') and g['tag'] != 'failed' and g['flags'] != 'failed' and g['closedb'] == 'ok')),
                        'success without --keep: indexed, tagged, synchronised and committed', 'post')
                e.prove(x, z3.BoolVal(g['idx'] is not None), 'success: indexing was attempted', 'post')
            else:
                seen.add('fail ' + str(g['file']))
                e.prove(x, z3.BoolVal(g['file'] in (None, 'unlinked')), 'failure: the file does not stay behind', 'post')
                if g['idx'] in ('ok', 'dup') and 'failed' in (g['tag'], g['flags']):
                    e.prove(x, z3.BoolVal(g['removed'] is True), 'failure after indexing: the index entry is removed again', 'post')
                if g['idx'] is not None:
                    e.prove(x, z3.Not(keep), 'with --keep a delivered message is a success', 'post')
    ctx.cover_any('success', any(x.startswith('ok ok') for x in seen))
    ctx.cover_any('failure with cleanup', 'fail unlinked' in seen)
    ctx.cover_any('failure before anything', 'fail None' in seen)


def ends(c):
    return z3.Or(c == 0, c == ord('/'))


def u_valid(ctx):
    """is_valid_folder_name: k is an arbitrary position; a component ".." there makes the name invalid."""
    e = ctx.engine()
    e.byte_mode = True
    st = State()
    p, arr, n = libc.mk_cstr(e, st, 'folder', 1 << 28)
    e.max_sym_iters, e.max_rounds = 0, 1
    k = z3.BitVec('k', 64)
    if ctx.bounded:
        e.assume(st, z3.ULE(n, C(4)))
    for i in range(3):
        e.read_arr(st, arr, k + i)
    e.read_arr(st, arr, k - 1)

    def ch(i):
        return z3.Select(arr, i)

    def dotdot(i):
        return z3.And(z3.ULT(i + 1, n), z3.ULT(i, n), z3.Or(i == 0, ch(i - 1) == ord('/')), ch(i) == ord('.'), ch(i + 1) == ord('.'), ends(ch(i + 2)))
    bad = dotdot(k)

    def templ(entry):
        r = []
        for x in entry.runner.ivars:
            r.append(('%s<=n' % (x,), one(x, lambda v, i: z3.ULE(i, n))))
            r.append(('%s: no ".." before it' % (x,), one(x, lambda v, i: z3.Implies(bad, z3.ULE(i, k)))))
            r.append(('%s: .. not passed' % (x,), one(x, lambda v, i: z3.Implies(bad, z3.ULE(i, k + 2)))))
            r.append(('%s: at the start of a component' % (x,), one(x, lambda v, i: z3.Or(i == 0, z3.Select(arr, i - 1) == ord('/')))))
        return r
    e.loop_templates.append(templ)
    seen = set()
    for s, kind, v in e.call(st, ctx.fn('is_valid_folder_name', 'notmuch-insert.c'), [p]):
        if kind != 'ret':
            e.fail(s, 'is_valid_folder_name returns', 'post')
            continue
        good, no = e.branch(s, cli.truth(v))
        if good is not None:
            seen.add(True)
            e.prove(good, z3.Not(bad), 'a valid folder name has no component ".."', 'post')
        if no is not None:
            seen.add(False)
    ctx.cover_any('valid', True in seen)
    ctx.cover_any('invalid', False in seen)


def u_host(ctx):
    """safe_gethostname: the result is a string within the buffer, without '/' or ':'."""
    e = ctx.engine()
    e.byte_mode = True
    st = State()
    size = 256
    buf = e.alloc(st, 'bytes', size, None, 'hostname')
    st.ghost['nul_hints'] = (C(size - 1),)
    k = z3.BitVec('k', 64)

    @guard
    def gethostname(en, s, a, ins):
        bad = s.fork()
        ob = en.to_bytes(s, a[0].o)
        en.prove(s, z3.And(z3.ULE(bv(a[0].off), C(size)), z3.ULE(bv(a[1]), C(size) - bv(a[0].off))), 'gethostname stays in its buffer', 'memory')
        s.mem[a[0].o] = ob.copy(data=en.fresh_arr('hostname'))     # possibly without a terminator
        return [(s, 0), (bad, (1 << 32) - 1)]
    e.contracts['gethostname'] = gethostname

    @guard
    def strncpy(en, s, a, ins):
        src = libc.lit_at(en, s, a[1])
        nn = conc(a[2])
        if src is None or not isinstance(nn, int):
            raise Unsupported('strncpy of computed text')
        src = src.split(b'\0')[0]
        for i in range(min(len(src) + 1, nn)):
            en.store(s, Ptr(a[0].o, conc(bv(a[0].off) + i)), (src + b'\0')[i], ('i', 8), en.prog.anymod())
        return (a[0],)
    e.contracts['strncpy'] = strncpy

    def templ(entry):
        r = []
        run = entry.runner
        for x in run.ivars:
            for o in run.modarr:
                r.append(('safe so far %s' % (x,), lambda v, x=x, o=o: (lambda i, ar: None if i is None or ar is None else z3.Implies(
                    z3.ULT(k, i), z3.And(z3.Select(ar, k) != ord('/'), z3.Select(ar, k) != 0)))(v.int(x), v.arrs.get(o))))
                r.append(('terminated %s' % (x,), lambda v, o=o: (lambda ar: None if ar is None else z3.Select(ar, C(size - 1)) == 0)(v.arrs.get(o))))
            r.append(('%s < size' % (x,), one(x, lambda v, i: z3.ULT(i, C(size)))))
        return r
    e.loop_templates.append(templ)
    done = False
    for s, kind, v in e.call(st, ctx.fn('safe_gethostname', 'notmuch-insert.c'), [buf, size]):
        if kind != 'ret':
            e.fail(s, 'safe_gethostname returns', 'post')
            continue
        done = True
        n = libc.c_strlen(e, s, buf)
        arr = e.to_bytes(s, buf.o).data
        e.assume(s, z3.ULT(k, bv(n)))
        e.prove(s, z3.Select(arr, k) != ord('/'), 'the host name used in file names has no "/"', 'post')
    ctx.cover_any('returns', done)


def new_argv(e, st):
    return e.alloc(st, 'cells', 1 << 20, {0: (8, new_sym_str(e, st, 'argv0'))}, 'argv')


def units(prog):
    out = [Unit('notmuch_insert_command', u_insert, ['notmuch_insert_command', 'maildir_write_new', 'maildir_write_tmp', 'maildir_mktemp', 'sync_dir', 'add_file'],
                contract='all-or-nothing durable delivery')]
    if prog.find('copy_fd', 'notmuch-insert.c') is not None:
        out.append(Unit('copy_fd', u_copy, ['copy_fd', 'write_buf'], contract='true only when every byte of standard input was written in order'))
    out.append(Unit('is_valid_folder_name', u_valid, ['is_valid_folder_name'], contract='true only when no path component is ".."'))
    out.append(Unit('safe_gethostname', u_host, ['safe_gethostname'], contract='a string in the buffer, without "/"'))
    return out


HARNESS = r'''
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/time.h>
static const char *faults; static int nf;
static char next_fault (void) { if (faults && faults[nf]) return faults[nf++]; return '.'; }
static const unsigned char *in; static size_t inlen, inpos;
static char *loc_path; static int loc, excl, ordered, dirsync, synced, nfs, first_read, idxok, removed, unlink_failed;
static unsigned char *content; static size_t clen; static int dirfd_open;
static void (*handler)(int);
static int s_open (const char *p, int fl, ...)
{
    nfs++;
    if (next_fault () == 'F') { errno = EACCES; return -1; }
    if (fl & (O_WRONLY | O_RDWR)) {
	if (! (fl & O_EXCL)) excl = 0;
	if (! strstr (p, "/tmp/")) excl = 0;
	loc = 1; free (loc_path); loc_path = strdup (p); clen = 0; synced = 0;
	return 7;
    }
    return 9;
}
static int s_close (int fd) { return 0; }
static ssize_t s_read (int fd, void *b, size_t n)
{
    char f = next_fault ();
    size_t m = inlen - inpos;
    if (f == 'F') { errno = EIO; return -1; }
    if (f == 'E') { errno = EINTR; return -1; }
    if (f == 'I') { if (handler) handler (2); errno = EINTR; return -1; }
    if (m > n) m = n;
    if (f == 'S' && m > 3) m = 3;
    if (f == 's' && m > 7) m = 7;
    memcpy (b, in + inpos, m); inpos += m;
    if (first_read < 0 && m) first_read = m;
    return m;
}
static ssize_t s_write (int fd, const void *b, size_t n)
{
    char f;
    if (fd != 7) return n;
    f = next_fault ();
    if (f == 'F') { errno = ENOSPC; return -1; }
    if (f == 'E') { errno = EINTR; return -1; }
    if (f == 'S' && n > 2) n = 2;
    if (f == 's' && n > 5) n = 5;
    content = realloc (content, clen + n + 1); memcpy (content + clen, b, n); clen += n;
    synced = 0;
    return n;
}
static int s_fsync (int fd)
{
    if (next_fault () == 'F') { errno = EIO; return -1; }
    if (fd == 7) synced = 1;
    if (fd == 9 && loc == 2) dirsync = 1;
    return 0;
}
static int s_rename (const char *a, const char *b)
{
    nfs++;
    if (next_fault () == 'F') { errno = EIO; return -1; }
    if (! loc_path || strcmp (a, loc_path) || ! synced) ordered = 0;
    if (strstr (b, "/new/")) loc = 2; else loc = 3;
    free (loc_path); loc_path = strdup (b); dirsync = 0;
    return 0;
}
static int s_unlink (const char *p)
{
    nfs++;
    if (next_fault () == 'F') { errno = EIO; unlink_failed = 1; return -1; }
    if (loc_path && ! strcmp (p, loc_path)) loc = 0;
    return 0;
}
static int s_stat (const char *p, struct stat *s) { nfs++; memset (s, 0, sizeof *s); s->st_mode = S_IFDIR; return 0; }
static int s_mkdir (const char *p, mode_t m) { nfs++; return 0; }
static int s_sigaction (int n, const struct sigaction *a, struct sigaction *o) { if (n == SIGINT) handler = a->sa_handler; return 0; }
static int s_kill (void) { return 0; }
static int s_fprintf (FILE *f, const char *fmt, ...) { return 0; }
static char *opt_folder; static int opt_keep, opt_create, st_index, st_tag, st_flags, st_close, st_opts, do_sync;
#include "notmuch-client.h"
#define open s_open
#define close s_close
#define read s_read
#define write s_write
#define fsync s_fsync
#define fdatasync s_fsync
#define rename s_rename
#define unlink s_unlink
#define remove s_unlink
#define stat(a, b) s_stat (a, b)
#define mkdir s_mkdir
#define sigaction(a, b, c) s_sigaction (a, b, c)
#define fprintf s_fprintf
#include "notmuch-insert.c"
#undef stat
#undef sigaction
#undef fprintf
#undef open
#undef close
#undef read
#undef write
const notmuch_opt_desc_t notmuch_shared_options[1], notmuch_shared_indexing_options[1];
int parse_arguments (int argc, char **argv, const notmuch_opt_desc_t *o, int i)
{
    for (; o->name || o->opt_inherit; o++) {
	if (! o->name) continue;
	if (! strcmp (o->name, "folder") && opt_folder) *o->opt_string = opt_folder;
	if (! strcmp (o->name, "keep")) *o->opt_bool = opt_keep;
	if (! strcmp (o->name, "create-folder")) *o->opt_bool = opt_create;
    }
    return 1;
}
#define STUB(ret, name, args, val) ret name args { return val; }
STUB (notmuch_indexopts_t *, notmuch_database_get_default_indexopts, (notmuch_database_t *d), (notmuch_indexopts_t *) 1)
void notmuch_process_shared_options (notmuch_database_t *d, const char *n) { }
STUB (const char *, notmuch_config_get, (notmuch_database_t *d, notmuch_config_key_t k), "/m")
STUB (notmuch_config_values_t *, notmuch_config_get_values, (notmuch_database_t *d, notmuch_config_key_t k), NULL)
STUB (notmuch_bool_t, notmuch_config_values_valid, (notmuch_config_values_t *v), 0)
STUB (const char *, notmuch_config_values_get, (notmuch_config_values_t *v), "")
void notmuch_config_values_move_to_next (notmuch_config_values_t *v) { }
STUB (notmuch_status_t, print_status_database, (const char *l, const notmuch_database_t *d, notmuch_status_t s), s)
notmuch_status_t notmuch_config_get_bool (notmuch_database_t *d, notmuch_config_key_t k, notmuch_bool_t *v) { *v = do_sync; return 0; }
STUB (const char *, notmuch_status_to_string, (notmuch_status_t s), "status")
STUB (int, status_to_exit, (notmuch_status_t s), s ? 1 : 0)
STUB (tag_op_list_t *, tag_op_list_create, (void *c), (tag_op_list_t *) 1)
STUB (int, tag_op_list_append, (tag_op_list_t *l, const char *t, bool r), 0)
STUB (const char *, illegal_tag, (const char *t, bool r), NULL)
tag_parse_status_t parse_tag_command_line (void *c, int n, char **v, char **q, tag_op_list_t *l) { *q = ""; return 0; }
STUB (notmuch_status_t, tag_op_list_apply, (notmuch_message_t *m, tag_op_list_t *l, tag_op_flag_t f), st_tag)
STUB (notmuch_status_t, notmuch_message_tags_to_maildir_flags, (notmuch_message_t *m), st_flags)
void notmuch_message_destroy (notmuch_message_t *m) { }
STUB (notmuch_status_t, notmuch_process_shared_indexing_options, (notmuch_indexopts_t *o), st_opts)
STUB (int, notmuch_run_hook, (notmuch_database_t *d, const char *h), 0)
STUB (notmuch_status_t, notmuch_database_close, (notmuch_database_t *d), st_close)
STUB (notmuch_status_t, notmuch_database_destroy, (notmuch_database_t *d), 0)
notmuch_status_t notmuch_database_remove_message (notmuch_database_t *d, const char *p) { if (loc_path && ! strcmp (p, loc_path)) removed = 1; return 0; }
notmuch_status_t notmuch_database_index_file (notmuch_database_t *d, const char *p, notmuch_indexopts_t *o, notmuch_message_t **m)
{
    idxok = loc == 2 && loc_path && ! strcmp (p, loc_path) && dirsync;
    if (m) *m = st_index && st_index != NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID ? NULL : (notmuch_message_t *) 1;
    return st_index;
}
void strip_trailing (char *s, char c) { size_t n = strlen (s); while (n && s[n - 1] == c) s[--n] = 0; }
static void handle (const char *op, int n, char **a, size_t *l)
{
    char *argv[2] = { "insert", NULL }; int rc;
    in = (unsigned char *) a[0]; inlen = l[0]; inpos = 0; faults = a[1]; nf = 0; opt_folder = a[2];
    opt_keep = atoi (a[3]); st_index = atoi (a[4]); st_tag = atoi (a[5]); st_flags = atoi (a[6]); st_close = atoi (a[7]); st_opts = atoi (a[8]); do_sync = atoi (a[9]); opt_create = atoi (a[10]);
    loc = 0; excl = ordered = 1; dirsync = synced = nfs = 0; first_read = -1; idxok = -1; removed = unlink_failed = 0; clen = 0; interrupted = 0; handler = NULL;
    free (loc_path); loc_path = NULL;
    rc = notmuch_insert_command (NULL, 1, argv);
    puti (rc != 0); puti (loc); if (loc) put (content, clen); else puts_ (NULL);
    puti (excl); puti (ordered); puti (dirsync); puti (idxok); puti (removed); puti (unlink_failed); puti (nfs); puti (first_read);
}
'''


def witness(prog, failing, tier, seed):
    import random
    from native import Harness, jb
    rnd = random.Random(seed)
    cases = []

    def case(data, faults=b'', folder=b'', keep=0, si=0, stg=0, sf=0, sc=0, so=0, sync=1, create=0):
        cases.append(['i', data, faults, folder, keep, si, stg, sf, sc, so, sync, create])
    msgs = [b'', b'From: a\n\nhello\n', b'From me Mon\nFrom: a\n\nbody\n', b'x' * 4096, b'From y\n' + bytes(rnd.randrange(1, 255) for _ in range(9000)), b'From']
    for f in (b'', b'a', b'a/b', b'..', b'a/..', b'../a', b'a/../b', b'..a', b'a..', b'.', b'a/..b', b'...', b'/..', b'a//..//b'):
        for create in (0, 1):
            case(msgs[1], b'', f, create=create)
    for d in msgs:
        for keep in (0, 1):
            for si in (0, 6, 5, 3):
                for stg in (0, 3):
                    for sf in (0, 5):
                        for sc in (0, 3):
                            for so in (0, 4):
                                case(d, b'', b'', keep, si, stg, sf, sc, so)
            for i in range(14):
                for x in b'FEISs':
                    case(d, b'.' * i + bytes([x]), b'', keep)
                    case(d, b'.' * i + bytes([x]), b'', keep, si=3)
    for _ in range(6000):
        n = rnd.randrange(1, 24)
        al = rnd.choice([b'.Ss', b'.SE', b'.sSEF', b'.....F', b'.....I', b'SsE'])
        case(rnd.choice(msgs), bytes(rnd.choice(al) for _ in range(n)), b'', rnd.randrange(2), rnd.choice([0, 0, 0, 3, 6]), rnd.choice([0, 0, 3]), rnd.choice([0, 0, 5]), rnd.choice([0, 0, 3]), rnd.choice([0, 0, 0, 4]))
    with Harness(HARNESS, [], ['talloc', 'gmime-3.0', 'zlib'], sanitize=True) as h:
        got = h.run(cases)
    for c, g in zip(cases, got):
        w = judge(c, g)
        if w:
            return {'function': 'notmuch_insert_command', 'what': w, 'stdin': jb(c[1][:200]), 'system_call_outcomes': jb(c[2]), 'folder': jb(c[3]), 'keep': c[4],
                    'statuses(index,tag,flags,close,options)': c[5:10], 'got(failed,location,content,excl,ordered,dirsync,index_ok,removed,unlink_failed,fs_calls,first_read)': [jb(x) if isinstance(x, bytes) else x for x in g][:11]}
    return None


def judge(c, g):
    data, faults, folder, keep, si, stg, sf, sc, so, sync = c[1:11]
    if g and g[0] == 'crash':
        return 'crash: ' + str(g[1])[:300]
    if len(g) != 11:
        return None
    bad, loc, content, excl, ordered, dirsync, idxok, removed, ulf, nfs, fr = g
    if b'..' in folder.split(b'/'):
        return None if bad and nfs == 0 else 'a folder with a ".." component is not refused'
    if not excl:
        return 'not created exclusively in tmp/'
    if not ordered:
        return 'moved into new/ without being synced or complete'
    if not bad:
        want = (HDR + data[5:]) if fr >= 5 and data[:5] == b'From ' else data
        if loc != 2:
            return 'success but no message in new/'
        if content != want and content != data:
            return 'success but the delivered file differs from standard input'
        if not dirsync:
            return 'success but new/ was not synced'
        if idxok != 1:
            return 'success but the delivered file was not indexed (durably delivered first)'
        if not keep and (si not in (0, 6) or (si == 0 and stg) or sc):
            return 'success although indexing, tagging or commit failed'
        if not keep and sync and sf:
            return 'success although flag synchronisation failed'
    else:
        if loc and not ulf:
            return 'failure leaves the message file behind'
        if si == 0 and (stg or (sync and sf)) and idxok == 1 and not removed:
            return 'failure leaves an index entry'
        if keep and idxok == 1:
            return 'failure with --keep although the message was delivered'
    return None

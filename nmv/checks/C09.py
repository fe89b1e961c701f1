"""C09: notmuch dump replaces its output file atomically, with a complete dump, or leaves it alone."""
import z3
import cli
import strs
import libc
import checks.C03
from sym import Ptr, NULL, State, Unsupported, bv, conc
from framework import Unit
from libc import guard, fmt_of
from strs import astr, eq, lit, new_str, new_sym_str, sym, is_lit, lit_val, to_id

TITLE = 'notmuch dump replaces its output file by a complete dump or leaves it alone'
SOURCES = ['notmuch-dump.c', 'status.c', 'util/string-util.c', 'util/zlib-extra.c']
ASSUMPTIONS = ['system calls and zlib follow their documentation', 'zlib reports every failed write at the latest when it is asked to finish the stream',
               'hex_encode and make_boolean_term behave as proved in C01 and C02; iterators list every item once']
F, T_ = z3.BoolVal(False), z3.BoolVal(True)
BAD = (1 << 32) - 1


def truth_of(a):
    r = a
    return z3.BoolVal(r) if isinstance(r, bool) else r


def u_dump(ctx, named):
    e = ctx.engine()
    e.inject_oom = True
    cli.stdio(e)
    st = State()
    db = cli.opaque(e, st, 'notmuch')
    out = new_sym_str(e, st, 'output', nonempty=True) if named else NULL
    outs = astr(e, st, out) if named else None
    query = new_sym_str(e, st, 'query')
    form, incl, gz = e.fresh('format', 32), e.fresh('include', 32), e.fresh('gzip', 1)
    st.ghost.update({'tmp': None, 'tmpname': None, 'fd': None, 'fdopen': False, 'gz': None, 'dirty': F, 'complete': F, 'bad': F,
                     'flushed': F, 'synced': F, 'closedok': F, 'renamed': F, 'unlinked': F, 'wrote': F, 'oom': F})
    C = e.contracts

    def fails(s, errno=True):
        b = s.fork()
        b.ghost['bad'] = T_
        if errno:
            libc.set_errno(e, b)
        return b

    @guard
    def asprintf(en, s, a, ins):
        b = fails(s)
        b.ghost['oom'] = T_
        parts = libc.format_str(en, s, fmt_of(en, s, a[1]), a[2:])
        p = new_str(en, s, parts, 'template')
        return [(s, p)]

    @guard
    def mkstemp(en, s, a, ins):
        parts = astr(en, s, a[0])
        ok = named and len(parts) == 2 and parts[0][0] == 'sym' and parts[0][1].eq(outs[0][1]) and parts[1][0] == 'lit' \
            and b'/' not in parts[1][1] and parts[1][1].endswith(b'XXXXXX')
        en.prove(s, z3.BoolVal(bool(ok)), 'the temporary file lies beside the output file', 'post')
        b = fails(s)
        x = en.fresh_int('tempname')
        s.mem[a[0].o] = s.mem[a[0].o].copy(data=sym(x))
        s.ghost.update({'tmp': a[0].o, 'tmpname': x, 'fd': 77, 'fdopen': True})
        return [(b, BAD), (s, 77)]

    @guard
    def dup(en, s, a, ins):
        en.prove(s, z3.And(z3.BoolVal(not named), bv(a[0], 32) == 1), 'standard output is written only without an output file', 'post')
        b = fails(s)
        s.ghost.update({'fd': 78, 'fdopen': True})
        return [(b, BAD), (s, 78)]

    def own_fd(s, v, what):
        v = conc(v)
        if not isinstance(v, int) or v != s.ghost['fd'] or not s.ghost['fdopen']:
            e.fail(s, '%s is given the file descriptor of the output' % what, 'post')
            raise libc.PathDead()

    @guard
    def gzdopen(en, s, a, ins):
        own_fd(s, a[0], 'gzdopen')
        m = astr(en, s, a[1])
        if not is_lit(m):
            raise Unsupported('mode of gzdopen')
        m = lit_val(m)
        en.prove(s, z3.And(z3.BoolVal(m[:1] == b'w'), (z3.BoolVal(b'T' not in m)) == cli.truth(gz)), 'the output is compressed exactly when asked for', 'post')
        b = fails(s)
        p = cli.opaque(en, s, 'gzFile')
        s.ghost['gz'] = p.o
        return [(b, NULL), (s, p)]

    def own_gz(s, p, what):
        if not isinstance(p, Ptr) or s.ghost['gz'] is None or p.o != s.ghost['gz']:
            e.fail(s, '%s is given the open output' % what, 'post')
            raise libc.PathDead()

    @guard
    def dumpfile(en, s, a, ins):
        own_gz(s, a[1], 'the dump')
        q = z3.BoolVal(isinstance(a[2], Ptr) and a[2].o == query.o and conc(a[2].off) == 0)
        en.prove(s, z3.And(z3.BoolVal(a[0].o == db.o), q, bv(a[3], 32) == form, bv(a[4], 32) == incl), 'what was asked for is dumped', 'post')
        en.prove(s, z3.Not(s.ghost['wrote']), 'the dump is written once', 'post')
        b = fails(s, False)
        r = en.fresh('dumpstatus', 32)
        en.assume(b, r != 0)
        b.ghost['wrote'] = T_
        s.ghost.update({'wrote': T_, 'complete': T_, 'dirty': T_, 'synced': F, 'flushed': F})
        return [(b, r), (s, 0)]

    @guard
    def gzflush(en, s, a, ins):
        own_gz(s, a[0], 'gzflush')
        b = fails(s)
        r = en.fresh('gzstatus', 32)
        en.assume(b, r != 0)
        s.ghost['flushed'] = bv(a[1], 32) == 4
        s.ghost['synced'] = F
        return [(b, r), (s, 0)]

    @guard
    def fsync(en, s, a, ins):
        own_fd(s, a[0], 'fsync')
        b = fails(s)
        s.ghost['synced'] = s.ghost['flushed']
        return [(b, BAD), (s, 0)]

    @guard
    def gzclose(en, s, a, ins):
        own_gz(s, a[0], 'gzclose')
        b = fails(s)
        r = en.fresh('gzstatus', 32)
        en.assume(b, r != 0)
        for x in (b, s):
            x.ghost.update({'gz': None, 'fdopen': False})
        s.ghost['closedok'] = T_
        s.ghost['synced'] = z3.And(s.ghost['synced'], s.ghost['flushed'])
        s.ghost['flushed'] = T_
        return [(b, r), (s, 0)]

    @guard
    def close(en, s, a, ins):
        own_fd(s, a[0], 'close')
        if s.ghost['gz'] is not None:
            en.fail(s, 'the descriptor is not closed under the compressor', 'post')
        b = s.fork()
        libc.set_errno(en, b)
        for x in (b, s):
            x.ghost['fdopen'] = False
        return [(b, BAD), (s, 0)]

    def is_tmp(s, p):
        if not isinstance(p, Ptr) or p.o == 0:
            return F
        t = astr(e, s, p)
        return F if s.ghost['tmpname'] is None else truth_of(eq(t, sym(s.ghost['tmpname'])))

    @guard
    def rename(en, s, a, ins):
        g = s.ghost
        en.prove(s, is_tmp(s, a[0]), 'the temporary file is what gets renamed', 'post')
        en.prove(s, z3.BoolVal(bool(named)) if not named else truth_of(eq(astr(en, s, a[1]), outs)), 'it gets the name of the output file', 'post')
        en.prove(s, z3.And(g['complete'], g['flushed']), 'the output file is replaced only by a complete dump', 'post')
        en.prove(s, g['synced'], 'the output file is replaced only after the dump is on disk', 'post')
        en.prove(s, g['closedok'], 'the output file is replaced only after the dump was closed without error', 'post')
        en.prove(s, z3.Not(z3.Or(g['renamed'], g['unlinked'])), 'the output file is replaced once', 'post')
        b = fails(s)
        s.ghost['renamed'] = T_
        return [(b, BAD), (s, 0)]

    @guard
    def unlink(en, s, a, ins):
        en.prove(s, is_tmp(s, a[0]), 'only the temporary file created is removed', 'post')
        en.prove(s, z3.Not(s.ghost['renamed']), 'a finished dump is not removed', 'post')
        b = s.fork()
        for x in (b, s):
            x.ghost['unlinked'] = T_
        return [(b, BAD), (s, 0)]

    @guard
    def error(en, s, a, ins):
        own_gz(s, a[0], 'gzerror') if False else None
        return (new_sym_str(en, s, 'gzerror'),)
    C['talloc_asprintf'], C['mkstemp'], C['mkstemp64'], C['dup'], C['gzdopen'] = asprintf, mkstemp, mkstemp, dup, gzdopen
    C['database_dump_file'], C['gzflush'], C['fsync'], C['fdatasync'] = dumpfile, gzflush, fsync, fsync
    C['gzclose_w'] = C['gzclose'] = gzclose
    C['close'], C['rename'], C['unlink'], C['remove'], C['gzerror_str'], C['strerror'] = close, rename, unlink, unlink, error, error
    cli.ignore(e, '_talloc_free')
    for n in ('open', 'open64', 'creat', 'fopen', 'gzopen', 'link', 'symlink', 'truncate', 'ftruncate', 'write', 'gzopen64', 'renameat', 'unlinkat'):
        def no(en, s, a, ins, n=n):
            en.fail(s, 'no other file is touched (%s)' % n, 'post')
            raise libc.PathDead()
        C[n] = guard(no)
    seen = set()
    for s, kind, v in e.call(st, ctx.fn('notmuch_database_dump'), [db, out, query, form, incl, gz]):
        if kind != 'ret':
            if kind != 'halt':
                e.fail(s, 'the dump returns', 'post')
            continue
        good, bad = e.branch(s, bv(v, 32) == 0)
        if good is not None:
            g = good.ghost
            seen.add('ok')
            e.prove(good, z3.And(g['complete'], z3.Not(g['bad']), g['closedok'], g['flushed']), 'success means a complete dump, closed without error', 'post')
            if named:
                e.prove(good, z3.And(g['renamed'], z3.Not(g['unlinked'])), 'success means the output file is the new dump', 'post')
            e.prove(good, z3.BoolVal(g['gz'] is None and not g['fdopen']), 'the output is closed', 'post')
        if bad is not None:
            g = bad.ghost
            seen.add('bad')
            e.prove(bad, g['bad'], 'failure is reported only when something failed', 'post')
            e.prove(bad, z3.Not(g['renamed']), 'a failed dump leaves the output file as it was', 'post')
            if named and g['tmpname'] is not None:
                e.prove(bad, g['unlinked'], 'a failed dump removes its temporary file', 'post')
            e.prove(bad, z3.BoolVal(g['gz'] is None and not g['fdopen']), 'the output is closed', 'post')
    ctx.cover_any('success', 'ok' in seen)
    ctx.cover_any('failure', 'bad' in seen)


def u_command(ctx):
    e = ctx.engine()
    e.inject_oom = True
    cli.stdio(e)
    st = State()
    db = cli.opaque(e, st, 'notmuch')
    argc = e.fresh('argc', 32)
    e.assume(st, z3.And(argc >= 1, argc < (1 << 20)))
    argv = e.alloc(st, 'cells', 1 << 24, {0: (8, new_sym_str(e, st, 'argv0'))}, 'argv')
    st.ghost.update({'bad': F, 'q': None, 'rest': None, 'dumped': F})
    C = e.contracts

    @guard
    def parse(en, s, a, ins):
        outs = cli.parse_arguments(en, s, a, ins)
        for t, r in outs:
            if isinstance(r, int):
                t.ghost['bad'] = T_
            else:
                t.ghost['rest'] = r
                inc = t.ghost.get('opt:include')
                if inc is not None:
                    en.assume(t, z3.ULT(inc, 8))
        return outs

    @guard
    def query(en, s, a, ins):
        r = s.ghost['rest']
        en.prove(s, z3.And(z3.BoolVal(a[2].o == argv.o), bv(a[1], 32) == argc - r, bv(a[2].off) == z3.SignExt(32, r) * 8), 'the query is made of all arguments after the options', 'post')
        b = s.fork()
        b.ghost['bad'] = T_
        q = new_sym_str(en, s, 'query')
        s.ghost['q'] = q.o
        return [(b, NULL), (s, q)]

    @guard
    def dump(en, s, a, ins):
        g = s.ghost
        r = g['rest']
        out = g.get('opt:output')
        want = isinstance(a[1], Ptr) and (a[1].o == out or (a[1].o == 0 and out is None))
        en.prove(s, z3.BoolVal(bool(a[0].o == db.o and want)), 'the dump goes to the file asked for', 'post')
        if g['q'] is None:
            en.prove(s, z3.And(r >= argc, z3.BoolVal(isinstance(a[2], Ptr) and a[2].o == 0)), 'without search terms everything is dumped', 'post')
        else:
            en.prove(s, z3.And(r < argc, z3.BoolVal(isinstance(a[2], Ptr) and a[2].o == g['q'])), 'the search terms given choose what is dumped', 'post')
        inc = g.get('opt:include')
        if inc is not None:
            en.prove(s, bv(a[4], 32) == z3.If(inc == 0, z3.BitVecVal(7, 32), inc), 'the parts asked for are dumped, all by default', 'post')
        f = g.get('opt:format')
        if f is not None:
            en.prove(s, bv(a[3], 32) == f, 'the format asked for is used', 'post')
        z = g.get('opt:gzip')
        if z is not None:
            en.prove(s, cli.truth(a[5]) == cli.truth(z), 'the output is compressed when asked for', 'post')
        b = s.fork()
        rr = en.fresh('dumpstatus', 32)
        en.assume(b, rr != 0)
        b.ghost['bad'] = T_
        s.ghost['dumped'] = T_
        return [(b, rr), (s, 0)]
    C['parse_arguments'], C['query_string_from_args'], C['notmuch_database_dump'] = parse, query, dump
    cli.ignore(e, 'notmuch_process_shared_options', 'notmuch_database_destroy')
    E = {x: e.prog.enum('DUMP_INCLUDE_' + x) for x in ('TAGS', 'CONFIG', 'PROPERTIES')}
    e.prove(st, z3.BoolVal(sorted(E.values()) == [1, 2, 4]), 'the parts of a dump are told apart', 'post')
    seen = set()
    for s, kind, v in e.call(st, ctx.fn('notmuch_dump_command'), [db, argc, argv]):
        if kind != 'ret':
            if kind != 'halt':
                e.fail(s, 'notmuch dump exits', 'post')
            continue
        good, bad = e.branch(s, bv(v, 32) == 0)
        if good is not None:
            seen.add('ok')
            e.prove(good, z3.And(good.ghost['dumped'], z3.Not(good.ghost['bad'])), 'exit status 0 means the dump was made', 'post')
        if bad is not None:
            seen.add('bad')
            e.prove(bad, bad.ghost['bad'], 'failure is reported only when something failed', 'post')
    ctx.cover_any('success', 'ok' in seen)
    ctx.cover_any('failure', 'bad' in seen)


def units(prog):
    return [Unit('notmuch_database_dump (file)', lambda c: u_dump(c, True), ['notmuch_database_dump'], contract='OUTPUT is replaced atomically by a complete synced dump, or untouched and the temporary file removed'),
            Unit('notmuch_database_dump (stdout)', lambda c: u_dump(c, False), ['notmuch_database_dump']),
            Unit('notmuch_dump_command', u_command, ['notmuch_dump_command'])] + checks.C03.dump_units()


HARNESS = r'''
#include <dirent.h>
#include <errno.h>
#include <sys/wait.h>
extern "C" int notmuch_dump_command (notmuch_database_t *notmuch, int argc, char *argv[]);
static int armed, outfd = -1;          /* the armed-th file operation on the output fails */
static std::string ops;
static bool hit (char op) { ops += op; if (armed > 0 && --armed == 0) { errno = ENOSPC; return true; } return false; }
#define REAL(T, n) ((T) dlsym (RTLD_NEXT, n))
static bool ours (int fd) {
    char p[64], b[4096]; snprintf (p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t n = readlink (p, b, sizeof b - 1);
    return n > 0 && (b[n] = 0, strstr (b, "/o/") != NULL);
}
extern "C" {
ssize_t write (int fd, const void *p, size_t n) { if (ours (fd) && hit ('w')) return -1; return REAL (ssize_t (*) (int, const void *, size_t), "write") (fd, p, n); }
int fsync (int fd) { if (ours (fd) && hit ('f')) return -1; return REAL (int (*) (int), "fsync") (fd); }
int rename (const char *a, const char *b) { if (strstr (b, "o/out") && hit ('r')) return -1; return REAL (int (*) (const char *, const char *), "rename") (a, b); }
int close (int fd) { bool h = ours (fd) && hit ('c'); int r = REAL (int (*) (int), "close") (fd); if (h) { errno = EIO; return -1; } return r; }
int mkstemp (char *t) { if (hit ('m')) return -1; return REAL (int (*) (char *), "mkstemp") (t); }
}
static void handle (const char *op, int n, char **arg, size_t *len) {
    static bool made;
    if (! made) {
	notmuch_database_t *db = mkdb ("mail");
	for (int i = 0; i < 3; i++) { addmsg (db, "mail", ("m" + std::to_string (i) + "@x").c_str ()); }
	for (int i = 0; i < 3; i++) {
	    notmuch_message_t *m;
	    notmuch_database_find_message (db, ("m" + std::to_string (i) + "@x").c_str (), &m);
	    notmuch_message_add_tag (m, "a b"); notmuch_message_add_tag (m, "c");
	}
	notmuch_database_destroy (db);
	mkdir ("o", 0700);
	made = true;
    }
    std::vector<char *> av = { (char *) "dump", (char *) "--output=o/out" };
    for (int i = 1; i < n; i++) av.push_back (arg[i]);
    int argc = av.size ();
    av.push_back (NULL);
    { std::ofstream f ("o/out"); f << "before"; }
    fflush (stdout);
    int pfd[2];
    if (pipe (pfd)) exit (4);
    pid_t pid = fork ();      /* a write error ends the process */
    if (! pid) {
	notmuch_database_t *db = NULL; char *e = NULL;
	freopen ("/dev/null", "w", stderr);
	if (notmuch_database_open_with_config (absp ("mail").c_str (), NOTMUCH_DATABASE_MODE_READ_ONLY, "", NULL, &db, &e)) _exit (99);
	ops.clear (); armed = atoi (arg[0]);
	int rc = notmuch_dump_command (db, argc, av.data ());
	char f = armed > 0 ? 'n' : 'y';
	write (pfd[1], ops.data (), ops.size ()); write (pfd[1], &f, 1);
	_exit (rc != 0);
    }
    close (pfd[1]);
    char b[4096]; ssize_t k, t = 0;
    while ((k = read (pfd[0], b + t, sizeof b - t)) > 0) t += k;
    close (pfd[0]);
    int st; waitpid (pid, &st, 0);
    puti (WIFEXITED (st) ? WEXITSTATUS (st) : 100);
    put (b, t);
    std::ifstream f ("o/out", std::ios::binary);
    std::string s ((std::istreambuf_iterator<char> (f)), std::istreambuf_iterator<char> ());
    put (s.data (), s.size ());
    int left = 0;
    DIR *d = opendir ("o");
    for (struct dirent *x; (x = readdir (d)); ) if (x->d_name[0] != '.' && strcmp (x->d_name, "out")) { left++; unlink ((std::string ("o/") + x->d_name).c_str ()); }
    closedir (d);
    puti (left);
}
'''


def witness(prog, failing, tier, seed):
    """Real dumps with one file operation failing."""
    import glob
    import gzip
    import os
    from libh import LibHarness, DBPRE
    from prog import REPO
    cases = []
    for args in ([], ['--gzip'], ['--format=sup'], ['--include=tags'], ['tag:c'], ['tag:nothing'], ['date:nonsense..nonsense'], ['--include=config', '--gzip']):
        for n in range(8):
            cases.append(['t', str(n).encode()] + [a.encode() for a in args])
    cli_src = sorted(os.path.basename(f) for f in glob.glob(REPO + '/*.c') + glob.glob(REPO + '/notmuch*.cc'))
    with LibHarness(DBPRE + HARNESS, cli=cli_src) as h:
        got = h.run(cases, timeout=240)
    full = {}
    for c, g in zip(cases, got):
        desc = {'fault_at_file_operation': int(c[1]), 'arguments': [a.decode() for a in c[2:]]}
        if g and g[0] == 'crash':
            return dict(desc, crash=g[1])
        rc, ops, text, left = g
        desc.update({'exit status': rc, 'operations (m: mkstemp, w: write, f: fsync, r: rename)': ops.decode('latin1'), 'output file': text.decode('latin1'), 'files left': left})
        key = tuple(c[2:])
        if int(c[1]) == 0:
            full[key] = text
            o = ops.decode('latin1')[:-1]
            if 'nonsense' in str(c):
                if not rc or left or text != b'before':
                    return dict(desc, what='a dump that cannot be made changes the output file, leaves a file or succeeds')
                continue
            if rc or left or not text or text == b'before':
                return dict(desc, what='a dump fails')
            if o.strip('w') and not (o.startswith('m') and o.endswith('r') and 'f' in o and o.rindex('w') < o.rindex('f') and 'r' not in o[:-1]):
                return dict(desc, what='the output file is replaced before the dump is on disk')
            continue
        hit = not ops.endswith(b'n')
        if hit and rc == 0:
            return dict(desc, what='a failed operation is not reported')
        if 'nonsense' in str(c):
            if not rc or text != b'before':
                return dict(desc, what='a dump that cannot be made changes the output file or succeeds')
            continue
        if not hit and (rc or left):
            return dict(desc, what='a dump fails')
        if rc and text != b'before':
            return dict(desc, what='a failed dump changed the output file')
        if not rc and text != full[key]:
            return dict(desc, what='the dump is incomplete')
        if rc and rc != 100 and ops and left and b'w' not in ops[:-1][-1:]:
            return dict(desc, what='a failed dump left its temporary file')
    return None

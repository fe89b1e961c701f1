"""Replay on the real library: compiles the current lib/, util/ and parse-time-string/ sources of /repo (in parallel, in
a scratch directory) and links them with a driver that speaks the protocol of native.Harness."""
import glob
import os
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
import native
from native import Harness, PRELUDE, MAIN
from prog import REPO

DEFS = ['-DHAVE_GETLINE=1', '-DHAVE_STRCASESTR=1', '-DHAVE_STRSEP=1', '-DHAVE_TIMEGM=1', '-DHAVE_CANONICALIZE_FILE_NAME=1', '-DSTD_GETPWUID=1',
        '-DSTD_ASCTIME=1', '-DHAVE_D_TYPE=1', '-DSILENCE_XAPIAN_DEPRECATION_WARNINGS', '-DNOTMUCH_VERSION=x', '-DNOTMUCH_INSTALLED_PREFIX="/usr"', '-DUTIL_BYTE_ORDER=1234', '-DHAVE_SFSEXP=%d', '-DHAVE_XAPIAN_DB_RETRY_LOCK=1']


def sfsexp():
    try:
        for l in open(os.path.join(REPO, 'Makefile.config')):
            if l.startswith('HAVE_SFSEXP') and l.split('=')[1].strip() == '1':
                return 1
    except OSError:
        pass
    return 0


class LibHarness(Harness):
    """code: C++ text with handle(); cli: further .c sources of /repo (renamed main)."""

    def __init__(self, code, cli=(), flags=()):
        self.dir = tempfile.mkdtemp(prefix='nmv-lib-')
        sx = sfsexp()
        libs = ['gmime-3.0', 'talloc', 'zlib'] + (['sfsexp'] if sx else [])
        cf = []
        for l in libs:
            cf += subprocess.run(['pkg-config', '--cflags', l], capture_output=True, text=True).stdout.split()
        lf = []
        for l in libs:
            lf += subprocess.run(['pkg-config', '--libs', l], capture_output=True, text=True).stdout.split()
        inc = ['-I' + REPO + x for x in ('', '/util', '/lib', '/compat', '/parse-time-string')]
        defs = [d % sx if '%d' in d else d for d in DEFS]
        with open(self.dir + '/h.cc', 'w') as f:
            f.write(PRELUDE + code + MAIN)
        src = [self.dir + '/h.cc'] + sorted(glob.glob(REPO + '/lib/*.c') + glob.glob(REPO + '/lib/*.cc') + glob.glob(REPO + '/util/*.c') +
                                           glob.glob(REPO + '/util/*.cc') + glob.glob(REPO + '/parse-time-string/*.c')) + [os.path.join(REPO, c) for c in cli]
        objs = []

        def one(s):
            o = os.path.join(self.dir, os.path.basename(s) + '.o')
            cxx = s.endswith('.cc')
            c = (['g++', '-std=c++17', '-fpermissive'] if cxx else ['gcc', '-std=gnu99']) + ['-g', '-O0', '-w', '-fPIC'] + defs + inc + list(flags) + cf + ['-c', s, '-o', o]
            if not cxx and s.startswith(REPO + '/notmuch'):
                c += ['-Dmain=notmuch_main']
            r = subprocess.run(c, capture_output=True, text=True)
            return o, r.stderr if r.returncode else ''
        with ThreadPoolExecutor(8) as ex:
            for o, err in ex.map(one, src):
                if err:
                    self.close()
                    raise RuntimeError('native build failed: ' + err[-1500:])
                objs.append(o)
        self.exe = self.dir + '/h'
        r = subprocess.run(['g++', '-rdynamic'] + objs + ['-o', self.exe] + lf + ['-lxapian', '-ldl'], capture_output=True, text=True)
        if r.returncode:
            self.close()
            raise RuntimeError('native link failed: ' + r.stderr[-1500:])
        os.environ['NOTMUCH_CONFIG'] = self.dir + '/none'


DBPRE = r'''
#include <dlfcn.h>
#include <sys/stat.h>
#include <fstream>
#include <string>
#include <set>
#include <vector>
#include <xapian.h>
#include <notmuch.h>
static int fault_in = -1;      /* the fault_in-th database write from now throws */
static int writes;
namespace Xapian {
void WritableDatabase::replace_document (docid did, const Document &doc) {
    writes++;
    if (fault_in >= 0 && fault_in-- == 0) throw DatabaseError ("disk full");
    typedef void (*F) (WritableDatabase *, docid, const Document &);
    ((F) dlsym (RTLD_NEXT, "_ZN6Xapian16WritableDatabase16replace_documentEjRKNS_8DocumentE")) (this, did, doc);
}
}
#include <unistd.h>
static std::string absp (const char *d) { char b[4096]; return d[0] == 47 ? std::string (d) : std::string (getcwd (b, sizeof b)) + "/" + d; }
static notmuch_database_t *mkdb (const char *dir) {
    notmuch_database_t *db = NULL; char *e = NULL;
    mkdir (dir, 0700); mkdir ((std::string (dir) + "/cur").c_str (), 0700); mkdir ((std::string (dir) + "/new").c_str (), 0700);
    if (notmuch_database_create_with_config (absp (dir).c_str (), "", NULL, &db, &e)) { fprintf (stderr, "create: %s\n", e ? e : ""); exit (4); }
    return db;
}
static void addmsg (notmuch_database_t *db, const char *dir, const char *id) {
    std::string f = absp (dir) + "/cur/" + id;
    std::ofstream (f) << "From: a@b\nMessage-ID: <" << id << ">\nSubject: s\nDate: Thu, 1 Jan 2015 00:00:00 +0000\n\nbody\n";
    int s = notmuch_database_index_file (db, f.c_str (), NULL, NULL);
    if (s) { fprintf (stderr, "index: %d\n", s); exit (4); }
}
static std::set<std::string> tagsof (notmuch_message_t *m) {
    std::set<std::string> r;
    for (notmuch_tags_t *t = notmuch_message_get_tags (m); t && notmuch_tags_valid (t); notmuch_tags_move_to_next (t)) r.insert (notmuch_tags_get (t));
    return r;
}
'''

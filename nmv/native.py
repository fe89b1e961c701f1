"""Replay on the real code: builds a tiny driver around /repo's current sources (address and undefined-behaviour
sanitizers on) and feeds it cases.  Used only to turn a failed obligation into a concrete failing input."""
import itertools
import os
import random
import shutil
import subprocess
import tempfile
from prog import REPO

PRELUDE = r'''
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <talloc.h>
static void put (const void *p, size_t n) { const unsigned char *b = (const unsigned char *) p; putchar (' '); putchar ('x'); for (size_t i = 0; i < n; i++) printf ("%02x", b[i]); }
static void puts_ (const char *s) { if (! s) printf (" NULL"); else put (s, strlen (s)); }
static void puti (long long v) { printf (" %lld", v); }
'''

MAIN = r'''
int main (void)
{
    char *line = NULL; size_t cap = 0; ssize_t len;
    while ((len = getline (&line, &cap, stdin)) > 0) {
	char *arg[64]; size_t alen[64]; int n = 0;
	char *save = NULL, *t;
	for (t = strtok_r (line, " \n", &save); t && n < 64; t = strtok_r (NULL, " \n", &save)) {
	    if (t[0] == 'x') {
		size_t l = strlen (t + 1) / 2, i;
		char *b = (char *) malloc (l + 1);   /* exact size: overruns are seen */
		for (i = 0; i < l; i++) { unsigned v; sscanf (t + 1 + 2 * i, "%2x", &v); b[i] = (char) v; }
		b[l] = 0; arg[n] = b; alen[n] = l;
	    } else if (! strcmp (t, "NULL")) { arg[n] = NULL; alen[n] = 0; }
	    else { arg[n] = strdup (t); alen[n] = strlen (t); }
	    n++;
	}
	printf ("R"); fflush (stdout);
	handle (arg[0], n - 1, arg + 1, alen + 1);
	printf ("\n"); fflush (stdout);
	for (int i = 0; i < n; i++) free (arg[i]);
    }
    return 0;
}
'''


class Harness:
    def __init__(self, code, sources, libs=(), cxx=False, flags=(), sanitize=True):
        self.dir = tempfile.mkdtemp(prefix='nmv-native-')
        src = os.path.join(self.dir, 'h.cc' if cxx else 'h.c')
        with open(src, 'w') as f:
            f.write(PRELUDE + code + MAIN)
        self.exe = os.path.join(self.dir, 'h')
        inc = ['-I' + REPO, '-I' + REPO + '/util', '-I' + REPO + '/lib', '-I' + REPO + '/compat',
               '-I' + REPO + '/parse-time-string']
        pk = []
        for l in libs:
            pk += subprocess.run(['pkg-config', '--cflags', '--libs', l], capture_output=True, text=True).stdout.split()
        san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=alignment'] if sanitize else []
        cmd = ['g++' if cxx else 'gcc', '-g', '-O1', '-w', '-fpermissive' if cxx else '-std=gnu99', '-DSILENCE_XAPIAN_DEPRECATION_WARNINGS'] + \
            ['-DHAVE_GETLINE=1', '-DHAVE_STRCASESTR=1', '-DHAVE_STRSEP=1', '-DHAVE_TIMEGM=1', '-DHAVE_CANONICALIZE_FILE_NAME=1', '-DSTD_GETPWUID=1', '-DSTD_ASCTIME=1', '-DHAVE_D_TYPE=1'] + \
            san + inc + list(flags) + [src] + [os.path.join(REPO, s) for s in sources] + ['-o', self.exe] + pk + ['-ltalloc']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            self.close()
            raise RuntimeError('native build failed: ' + r.stderr[-1500:])

    def run(self, cases, timeout=120):
        """cases: list of lists (first the op name; bytes, None or int arguments).  Returns one entry per case:
        list of fields, or ('crash', text)."""
        out = []
        i = 0
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', LC_ALL='C')
        while i < len(cases):
            txt = []
            for c in cases[i:]:
                f = [c[0]]
                for a in c[1:]:
                    f.append('NULL' if a is None else 'x' + a.hex() if isinstance(a, bytes) else str(a))
                txt.append(' '.join(f))
            try:
                p = subprocess.run([self.exe], input=('\n'.join(txt) + '\n').encode(), capture_output=True,
                                   timeout=timeout, env=env, cwd=self.dir)
                so, rc, se = p.stdout, p.returncode, p.stderr
            except subprocess.TimeoutExpired as e:
                so, rc, se = e.stdout or b'', -99, b'timeout'
            lines = so.decode('latin1').split('\n')
            done = lines[:-1]
            for l in done:
                out.append(self.parse(l))
                i += 1
            if i < len(cases):
                # the first crash is a failing input: no need to go on
                out.append(('crash', se.decode('latin1')[:1500] or 'exit %d' % rc))
                break
        return out

    def parse(self, l):
        r = []
        for t in l.split()[1:]:
            if t == 'NULL':
                r.append(None)
            elif t[0] == 'x':
                r.append(bytes.fromhex(t[1:]))
            else:
                r.append(int(t))
        return r

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def strings(alphabet, maxlen, nrand, seed, randlen=40, randalpha=None):
    """All strings over alphabet up to maxlen, then random ones."""
    for n in range(maxlen + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield bytes(t)
    rnd = random.Random(seed)
    ra = randalpha or bytes(range(1, 256))
    for _ in range(nrand):
        al = ra if rnd.random() < 0.5 else alphabet
        yield bytes(rnd.choice(al) for _ in range(rnd.randrange(1, randlen)))


def jb(b):
    return None if b is None else b.decode('latin1') if isinstance(b, bytes) else b

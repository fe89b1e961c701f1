"""Compile /repo's current sources to LLVM IR and resolve names across the modules."""
import os
import re
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
import ir

REPO = os.environ.get('NMV_REPO', '/repo')

FLAGS = """-I./util -I./compat -I./lib -I./parse-time-string -I. -I/usr/include/gmime-3.0 -D_LARGEFILE64_SOURCE
-I/usr/include/glib-2.0 -I/usr/lib/x86_64-linux-gnu/glib-2.0/include -I/usr/include/libmount -I/usr/include/blkid
-DHAVE_VALGRIND=0 -DHAVE_SFSEXP=1 -I/usr/include/sfsexp -DHAVE_GETLINE=1 -DWITH_EMACS=1
-DHAVE_CANONICALIZE_FILE_NAME=1 -DHAVE_STRCASESTR=1 -DHAVE_STRSEP=1 -DHAVE_TIMEGM=1 -DHAVE_D_TYPE=1 -DSTD_GETPWUID=1
-DSTD_ASCTIME=1 -DSILENCE_XAPIAN_DEPRECATION_WARNINGS -DHAVE_XAPIAN_DB_RETRY_LOCK=1 -DNOTMUCH_VERSION=0.38""".split()

OPT = '/usr/lib/llvm-18/bin/opt'
PASSES = 'sroa,mem2reg,simplifycfg,lowerswitch,loop-simplify'
CXXFILT = '/usr/lib/llvm-18/bin/llvm-cxxfilt'


class CompileError(Exception):
    pass


def compile_one(src, out, repo=None):
    repo = repo or REPO
    cc = 'clang++' if src.endswith('.cc') else 'clang'
    ll = out + '.ll'
    cmd = [cc, '--gcc-install-dir=/usr/lib/gcc/x86_64-linux-gnu/13', '-g', '-S', '-emit-llvm', '-O0', '-Xclang',
           '-disable-O0-optnone', '-fno-builtin', '-w'] + FLAGS + [src, '-o', ll]
    if src.endswith('.c'):
        cmd.insert(1, '-std=gnu99')
    r = subprocess.run(cmd, cwd=repo, capture_output=True, text=True)
    if r.returncode:
        raise CompileError('%s: %s' % (src, r.stderr[-2000:]))
    r = subprocess.run([OPT, '-S', '-passes=' + PASSES, ll, '-o', out], capture_output=True, text=True)
    if r.returncode:
        raise CompileError('opt %s: %s' % (src, r.stderr[-2000:]))
    os.unlink(ll)
    return out


XAPIAN = {
    'LogicError': 'Error', 'RuntimeError': 'Error', 'AssertionError': 'LogicError',
    'InvalidArgumentError': 'LogicError', 'InvalidOperationError': 'LogicError', 'UnimplementedError': 'LogicError',
    'DatabaseError': 'RuntimeError', 'DatabaseCorruptError': 'DatabaseError', 'DatabaseCreateError': 'DatabaseError',
    'DatabaseLockError': 'DatabaseError', 'DatabaseModifiedError': 'DatabaseError',
    'DatabaseOpeningError': 'DatabaseError', 'DatabaseVersionError': 'DatabaseOpeningError',
    'DatabaseClosedError': 'DatabaseError', 'DatabaseNotFoundError': 'DatabaseOpeningError',
    'DocNotFoundError': 'RuntimeError',
    'FeatureUnavailableError': 'RuntimeError', 'InternalError': 'RuntimeError', 'NetworkError': 'RuntimeError',
    'NetworkTimeoutError': 'NetworkError', 'QueryParserError': 'RuntimeError', 'RangeError': 'RuntimeError',
    'SerialisationError': 'RuntimeError', 'WildcardError': 'RuntimeError',
}


def xti(n):
    return '_ZTIN6Xapian%d%sE' % (len(n), n)


PARENT = {xti(k): xti(v) for k, v in XAPIAN.items()}
PARENT['_ZTISt12out_of_range'] = '_ZTISt11logic_error'
PARENT['_ZTISt11logic_error'] = '_ZTISt9exception'
PARENT['_ZTISt9bad_alloc'] = '_ZTISt9exception'
PARENT['_ZTISt13runtime_error'] = '_ZTISt9exception'
PARENT['_ZTISt12length_error'] = '_ZTISt11logic_error'


class Program:
    def __init__(self, sources, repo=None, jobs=8):
        self.repo = repo or REPO
        self.tmp = tempfile.mkdtemp(prefix='nmv-ir-')
        self.mods = {}
        self.sources = list(sources)

        def one(s):
            return s, compile_one(s, os.path.join(self.tmp, s.replace('/', '_') + '.ir'), self.repo)
        with ThreadPoolExecutor(jobs) as ex:
            for s, o in ex.map(one, self.sources):
                self.mods[s] = ir.Module(o)
        for f in os.listdir(self.tmp):
            os.unlink(os.path.join(self.tmp, f))
        os.rmdir(self.tmp)
        self.defs = {}
        for s in self.sources:
            m = self.mods[s]
            m.src = s
            for n in m.functions:
                self.defs.setdefault(n, []).append(s)
        self.gdefs = {}
        for s in self.sources:
            m = self.mods[s]
            for n, t in m.gtext.items():
                if not re.match(r'(private|internal|external|available_externally)\b', t):
                    self.gdefs.setdefault(n, s)
        self._tid = {}
        self._dem = {}
        self._mut = {}
        self._fk = {}
        self.demangle_all()

    def anymod(self):
        return self.mods[self.sources[0]]

    def demangle_all(self):
        names = set()
        for m in self.mods.values():
            names.update(n for n in m.functions if n.startswith('_Z'))
            names.update(n for n in m.declares if n.startswith('_Z'))
        names = sorted(names)
        if names:
            r = subprocess.run([CXXFILT], input='\n'.join(names), capture_output=True, text=True)
            for n, d in zip(names, r.stdout.split('\n')):
                self._dem[n] = d

    def pretty(self, key):
        n = key.split('!')[-1]
        return self._dem.get(n, n)

    def is_internal(self, mod, name):
        f = mod.functions.get(name)
        if f is None:
            return False
        h = f[0] if isinstance(f, tuple) else f.header
        return h.startswith('define internal') or h.startswith('define private')

    def fnkey(self, mod, name):
        k = (mod.src, name)
        r = self._fk.get(k)
        if r is None:
            r = name
            if self.is_internal(mod, name) and len(self.defs.get(name, ())) > 1:
                r = mod.src + '!' + name
            self._fk[k] = r
        return r

    def is_function(self, mod, name):
        return name in mod.functions or name in mod.declares or name in self.defs

    def function(self, key):
        if '!' in key:
            s, n = key.split('!', 1)
            return self.mods[s].fn(n)
        ss = self.defs.get(key)
        if not ss:
            return None
        best = ss[0]
        for s in ss:
            if not self.is_internal(self.mods[s], key):
                best = s
                break
        return self.mods[best].fn(key)

    def find(self, name, src=None):
        """The function key for a source-level name (C name, or C++ qualified name without parameters)."""
        if src and name in self.mods[src].functions:
            return self.fnkey(self.mods[src], name)
        if name in self.defs:
            return self.fnkey(self.mods[self.defs[name][0]], name)
        hits = []
        for n in self.defs:
            if not n.startswith('_Z'):
                continue
            for a in self.aliases(n):
                if a == name:
                    if src is None or src in self.defs[n]:
                        hits.append(n)
        if len(set(hits)) == 1:
            n = hits[0]
            return self.fnkey(self.mods[src or self.defs[n][0]], n)
        return None

    def aliases(self, key):
        r = self._fk.get(('al', key))
        if r is not None:
            return r
        n = key.split('!')[-1]
        out = [n]
        d = self._dem.get(n)
        if d:
            out.append(d)
            base = strip_params(d)
            out.append(base)
            # C++ functions of the project: plain name
            out.append(base.split(' ')[-1])
            nt = strip_templates(base)
            if nt != base:
                out.append(nt)
                out.append(nt.split(' ')[-1])
        self._fk[('al', key)] = out
        return out

    def globkey(self, mod, name):
        if name in self.gdefs and not re.match(r'(private|internal)\b', mod.gtext.get(name, 'external')):
            return 'g:' + self.gdefs[name] + '!' + name
        if name in mod.gtext and not mod.gtext[name].startswith('external'):
            return 'g:' + mod.src + '!' + name
        return 'g:!' + name

    def global_of(self, key):
        s, n = key[2:].split('!', 1)
        return (self.mods[s] if s else None), n

    def is_mutated(self, mod, name):
        k = (mod.src, name)
        r = self._mut.get(k)
        if r is None:
            r = False
            pat = re.compile(r'store .*ptr (?:nonnull )?(?:getelementptr [^@]*)?@%s\b' % re.escape(name))
            ms = [mod] if re.match(r'(private|internal)\b', mod.gtext[name]) else list(self.mods.values())
            for m in ms:
                for fname, f in m.functions.items():
                    if fname.startswith('__cxx_global_var_init'):
                        continue          # dynamic initialisation: see dyninit
                    body = f[1] if isinstance(f, tuple) else f.body
                    for ln in body:
                        if '@' + name in ln and pat.search(ln):
                            r = True
            self._mut[k] = r
        return r

    def dyninit(self, mod, name):
        """The C++ initialisation functions that compute this global's value before main."""
        pat = re.compile(r'store .*ptr (?:nonnull )?(?:getelementptr [^@]*)?@%s\b' % re.escape(name))
        out = []
        for fname, f in mod.functions.items():
            if fname.startswith('__cxx_global_var_init'):
                body = f[1] if isinstance(f, tuple) else f.body
                if any('@' + name in ln and pat.search(ln) for ln in body):
                    out.append(fname)
        return out

    def typeid(self, name):
        if name not in self._tid:
            self._tid[name] = 10 + len(self._tid)
        return self._tid[name]

    def exc_matches(self, exc, catch):
        t = exc
        while t is not None:
            if t == catch:
                return True
            t = PARENT.get(t)
        return False

    def enum(self, name):
        for m in self.mods.values():
            v = m.enum_values().get(name)
            if v is not None:
                return v
        raise KeyError(name)

    def fields(self, struct):
        for m in self.mods.values():
            f = m.struct_fields(struct)
            if f:
                return f
        raise KeyError(struct)

    def struct_size(self, struct):
        for m in self.mods.values():
            if m.struct_fields(struct):
                return m.struct_size(struct)
        raise KeyError(struct)


def strip_params(d):
    # drop the trailing parameter list (balanced) and cv-qualifiers
    d = re.sub(r'\[abi:[^\]]*\]', '', d)
    e = d.rstrip()
    if e.endswith(' const'):
        e = e[:-6]
    if not e.endswith(')'):
        return d
    depth = 0
    for i in range(len(e) - 1, -1, -1):
        if e[i] == ')':
            depth += 1
        elif e[i] == '(':
            depth -= 1
            if depth == 0:
                return e[:i]
    return d


def strip_templates(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if s.startswith('operator<<', i) or s.startswith('operator->', i) or s.startswith('operator<', i) or s.startswith('operator>', i):
            j = i + 8
            while j < len(s) and s[j] in '<>-=':
                j += 1
            if d == 0:
                out.append(s[i:j])
            i = j
            continue
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)

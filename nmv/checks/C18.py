"""C18: no C++ exception leaves the public C API, and a database error caught inside it is reported to the caller."""
import os
import re
import exc as E
from framework import Unit
from prog import REPO, xti
from sym import Obl, Failure

TITLE = 'Library calls report Xapian failures through their return value, never by throwing'
SOURCES = ['lib/' + f for f in sorted(os.listdir(os.path.join(REPO, 'lib'))) if f.endswith(('.cc', '.c'))] + \
    ['util/' + f for f in sorted(os.listdir(os.path.join(REPO, 'util'))) if f.endswith('.c')]
ASSUMPTIONS = [
    'Xapian methods throw only the exceptions listed in nmv/exc.py (database errors for everything that reads or writes the backend)',
    'std::bad_alloc is out of scope (allocation failure); vtable functions are only called by Xapian from inside the calls that carry their exceptions',
    'indirect calls reach only address-taken functions with the same number of arguments; user callbacks do not throw',
    'every call site is assumed reachable and every path through a handler feasible',
]


class Acc:
    """Collects obligations in the shape the framework reports."""

    def __init__(self, x):
        self.obls = []
        self.failures = []
        self.weak = []
        self.solver_time = 0.0
        self.nqueries = 0
        self.loopinfo = []
        self.invlog = []
        self.used_contracts = set()
        self.inlined = set()
        self.bounded_hit = False

    def ob(self, name, kind, where, ok, trace=()):
        self.obls.append(Obl(name, kind, where, ok, 0.0, 'exception-flow calculus'))
        if not ok:
            f = Failure(name, kind, where, None, None, True, '')
            f.trace = list(trace)
            self.failures.append(f)


def public(prog):
    pats = []
    try:
        t = open(os.path.join(REPO, 'lib', 'notmuch.sym')).read()
        m = re.search(r'global:(.*?)local:', t, re.S)
        for p in m.group(1).replace('\n', ' ').split(';'):
            p = p.strip()
            if re.match(r'^[\w*]+$', p):
                pats.append(re.compile('^' + p.replace('*', r'\w*') + '$'))
    except Exception:
        pats = [re.compile(r'^notmuch_\w*$')]
    out = []
    for s in prog.sources:
        m = prog.mods[s]
        if not s.startswith('lib/'):
            continue
        for n in m.functions:
            if not prog.is_internal(m, n) and not n.startswith('_Z') and any(p.match(n) for p in pats):
                out.append(n)
    return sorted(set(out))


def unit_public(x, names, src):
    def run(ctx):
        a = Acc(x)
        ctx.engines.append(a)
        for k in names:
            f = x.fns[k]
            # one obligation per call site and admitted exception of the function: stopped before it leaves
            leaks = x.throws[k]
            for b in f.order:
                for ins in f.blocks[b]:
                    if ins.op in ('call', 'invoke'):
                        for e, ck in x.callee_throws(f, ins).items():
                            out = {e} if ins.op == 'call' else x.padcache.get((k, b, id(ins), e), set())
                            if ck:
                                a.used_contracts.add(ck)
                            if not (out & leaks):
                                a.ob('%s: %s from %s is stopped' % (k, short(ctx.prog, e[0]), short(ctx.prog, ck)), 'nothrow',
                                     x.where(f, ins), True)
            if not leaks:
                a.ob('%s throws nothing' % k, 'contract', src, True)
            for org in sorted({e[1] for e in leaks}):
                es = sorted((e for e in leaks if e[1] == org), key=lambda e: len(x.path(k, e)))
                a.ob('%s lets no exception of %s escape' % (k, norm(org)), 'nothrow', src, False,
                     [short(ctx.prog, es[0][0])] + x.path(k, es[0]))
        ctx.cover_any('public functions', bool(names))
    return run


def norm(o):
    return re.sub(r'\[abi:\w+\]', '', re.sub(r'(throw) at (\S+?):\S*', r'\1 in \2', o))


def short(prog, n):
    if n is None:
        return 'throw'
    m = re.match(r'_ZTIN6Xapian\d+(\w+)E$', n)
    if m:
        return 'Xapian::' + m.group(1)
    return prog.pretty(n).split('(')[0][-60:]


def unit_reported(x, keys, src):
    def run(ctx):
        a = Acc(x)
        ctx.engines.append(a)
        und = 0
        for k in keys:
            f = x.fns[k]
            kind = E.ret_kind(f)
            res = E.after_catch(x, f)
            bad = False
            for where, v, note in sorted(res, key=str):
                if kind == 'status':
                    if v == ('i', 0):
                        bad = True
                        a.ob('%s reports a caught database error (never success)' % k, 'error-reported', where, False,
                             ['handler entered at %s' % where, 'returns 0 (success)'])
                    elif v[0] == 'unk':
                        und += 1
                elif kind == 'ptr':
                    if v[0] == 'nz' or (v[0] == 'i' and v[1]):
                        bad = True
                        a.ob('%s returns NULL after a caught database error' % k, 'error-reported', where, False)
                elif kind == 'void' or v[0] == 'void':
                    bad = True
                    a.ob('%s does not swallow a database error' % short(ctx.prog, k), 'error-reported', where, False,
                         ['the handler reached from %s falls through to the end of a function that cannot report it' % where])
            if not bad:
                a.ob('%s reports a caught database error' % short(ctx.prog, k), 'error-reported', src, True)
        if und:
            ctx.notes.append('%d handler paths return a value this analysis cannot evaluate (not counted as failures)' % und)
    return run


def units(prog):
    pub = [prog.fnkey(prog.mods[prog.defs[n][0]], n) for n in public(prog)]
    x = E.Exc(prog, pub).solve()
    by = {}
    for k in pub:
        by.setdefault(x.fns[k].mod.src, []).append(k)
    us = []
    for s in sorted(by):
        us.append(Unit('%s: public functions throw nothing' % s, unit_public(x, by[s], s), by[s], [s],
                       'requires: callees meet their exception contracts; ensures: no exception propagates to the caller'))
    hk = {}
    for k in x.keys:
        f = x.fns[k]
        if x.handlers.get(f.name) and f.mod.src.startswith('lib/'):
            hk.setdefault(f.mod.src, []).append(k)
    for s in sorted(hk):
        us.append(Unit('%s: caught errors are reported' % s, unit_reported(x, hk[s], s), hk[s], [s],
                       'ensures: on every path through a handler that stops a database error, the status returned is not '
                       'success (pointer results are NULL)'))
    return us

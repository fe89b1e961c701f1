"""Modular exception contracts over the IR of the current tree.

Each function f gets a contract 'throws(f)': the set of (exception type, origin) pairs that may leave it.  The contracts
are the least solution of the per-function obligations: for every call site, each pair the callee's contract admits is
either in throws(f), or is stopped by the landing pad of the site.  Landing pads are followed through the actual IR
(clause matching against the C++ class hierarchy, selector comparisons, cleanup blocks) up to __cxa_begin_catch or
resume, so how the source arranges its try blocks does not matter."""
import re
from prog import PARENT, xti

ERR = xti
DB = ('DatabaseModifiedError', 'DatabaseCorruptError')
NET = DB

# Xapian methods: what they may throw (everything that touches the database backend may throw Database errors)
NONE = ()
XCT = {
    # constructors/destructors/handle operations that do not touch the backend
    r'Compactor::Compactor': NONE, r'.*::~\w+': NONE, r'Database::Database\(\)': NONE,
    r'Database::Database\(std::.*': ('DatabaseOpeningError', 'DatabaseVersionError', 'DatabaseCorruptError'),
    r'Database::operator=': NONE, r'Database::get_uuid': ('DatabaseClosedError',),
    r'Document::Document\(\)': NONE, r'Document::Document\(Xapian': NONE, r'Document::get_docid': NONE,
    r'Document::operator=': NONE, r'Document::set_data': NONE, r'Document::clear_terms': NONE,
    r'Document::add_term': DB + ('InvalidArgumentError',), r'Document::remove_term': DB + ('InvalidArgumentError',),
    r'Document::add_value': DB, r'Document::(get_value|get_data|termlist_begin)': DB,
    r'Database::get_document': DB + ('DocNotFoundError',),
    r'Database::(allterms_begin|get_doccount|get_lastdocid|get_metadata|get_value_freq|get_value_upper_bound|'
    r'metadata_keys_begin|postlist_begin|valuestream_begin)': DB,
    r'Database::reopen': DB + ('DatabaseOpeningError',),
    r'Database::compact_': DB + ('InvalidOperationError', 'DatabaseOpeningError'),
    r'Enquire::Enquire': NONE, r'Enquire::set_\w+': NONE, r'Enquire::get_mset': DB + ('InvalidArgumentError',),
    r'MSet::(MSet|operator=|size|get_matches_estimated)': NONE, r'MSetIterator::operator\*': NONE,
    r'PostingIterator::(decref)': NONE, r'PostingIterator::operator\*': NONE,
    r'PostingIterator::(operator\+\+|skip_to)': DB,
    r'PostingSource::.*': NONE,
    r'Query::Query\(Xapian::PostingSource': NONE, r'Query::Query\(std': NONE,
    r'Query::Query\(Xapian::Query::op, std': ('InvalidArgumentError',),
    r'Query::Query\(Xapian::Query::op, unsigned': NONE,
    r'Query::(add_subquery|done|init|get_description|get_terms_begin)': NONE,
    r'QueryParser::(QueryParser|set_\w+)': NONE,
    r'QueryParser::(add_boolean_prefix|add_prefix|add_rangeprocessor)': ('InvalidOperationError', 'InvalidArgumentError'),
    r'QueryParser::parse_query': DB + ('QueryParserError',),
    r'Stem::Stem\(Xapian': NONE, r'Stem::Stem\(std': ('InvalidArgumentError',), r'Stem::operator': NONE,
    r'TermGenerator::(TermGenerator|get_termpos|set_\w+)': NONE, r'TermGenerator::index_text': DB,
    r'TermIterator::decref': NONE, r'TermIterator::(operator\*|operator\+\+|skip_to)': DB,
    r'Unicode::.*': NONE, r'Utf8Iterator::.*': NONE,
    r'ValueIterator::decref': NONE, r'ValueIterator::get_docid': NONE,
    r'ValueIterator::(check|operator\*|operator\+\+|skip_to)': DB,
    r'WritableDatabase::WritableDatabase': ('DatabaseOpeningError', 'DatabaseLockError', 'DatabaseCreateError'),
    r'WritableDatabase::(begin_transaction|cancel_transaction|commit_transaction)': DB + ('InvalidOperationError',),
    r'WritableDatabase::commit': DB,
    r'WritableDatabase::(delete_document|replace_document)': DB + ('DocNotFoundError', 'InvalidArgumentError'),
    r'WritableDatabase::set_metadata': DB + ('InvalidArgumentError',),
    r'sortable_(un)?serialise': NONE,
    r'\w*Error::\w+': NONE,
    # anything unlisted in Xapian may throw a database error
    r'.*': DB,
}
XCTC = [(re.compile(k), v) for k, v in XCT.items()]
STDCT = [(re.compile(r'.*::at\('), '_ZTISt12out_of_range'),
         (re.compile(r'std::__throw_out_of_range'), '_ZTISt12out_of_range')]
PARENT.setdefault('_ZTISt16invalid_argument', '_ZTISt11logic_error')
PARENT.setdefault('_ZTISt12system_error', '_ZTISt13runtime_error')

ATTR = re.compile(r'attributes #(\d+) = \{([^}]*)\}')


def external_throws(prog, name):
    """Assumed contract of a function with no body in the tree."""
    d = prog.pretty(name)
    if d.startswith('Xapian::'):
        s = d[len('Xapian::'):]
        for r, v in XCTC:
            if r.match(s):
                return [(xti(x), d.split('(')[0]) for x in v]
    for r, v in STDCT:
        if r.match(d):
            return [(v, d.split('(')[0])]
    return []


class Exc:
    def __init__(self, prog, nothrow=()):
        self.prog = prog
        self.throws = {}            # key -> set of (type, origin)
        self.sites = {}
        self.keys = []
        self.ext = {}
        self.addr_taken = None
        self.nsites = 0
        self.npads = 0
        self.uses = {}
        self.via = {}               # (key, exc) -> (line text, callee key or None)
        self.nothrow = set(nothrow)
        for m in prog.mods.values():
            for n in m.functions:
                k = prog.fnkey(m, n)
                if k not in self.throws:
                    self.throws[k] = set()
                    self.keys.append(k)
        self.build()

    # ------------------------------------------------------------------
    def build(self):
        taken = set()
        self.fns = {}
        for k in self.keys:
            f = self.prog.function(k)
            f.parse()
            self.fns[k] = f
        # functions whose address is taken inside function bodies (indirect calls may reach them)
        for k, f in self.fns.items():
            for b in f.order:
                for ins in f.blocks[b]:
                    t = ins.text or ''
                    if '@' not in t:
                        continue
                    names = re.findall(r'@("[^"]+"|[-\w.$]+)', t)
                    callee = None
                    if ins.op in ('call', 'invoke') and ins.a[0][0] == 'glob':
                        callee = ins.a[0][1]
                    first = True
                    for n in names:
                        n = n.strip('"')
                        if n == callee and first:
                            first = False
                            continue
                        if n in f.mod.functions and n != callee:
                            taken.add(self.prog.fnkey(f.mod, n))
        self.addr_taken = taken
        # vtables and static tables: functions reachable from outside (callbacks of Xapian, glib)
        self.tables = set()
        for m in self.prog.mods.values():
            for g, t in m.gtext.items():
                for n in re.findall(r'@("[^"]+"|[-\w.$]+)', t):
                    n = n.strip('"')
                    if n in m.functions:
                        self.tables.add(self.prog.fnkey(m, n))

    def callee_throws(self, f, ins):
        callee = ins.a[0]
        if callee[0] != 'glob':
            # indirect: any address-taken function, or (virtual call) one in a table
            out = {}
            n = len(ins.a[1])
            for k in sorted(self.addr_taken):
                if len(self.fns[k].params) == n:
                    for e in self.throws[k]:
                        out[e] = k
            return out
        n = callee[1]
        if n.startswith('llvm.'):
            return {}
        if n == '__cxa_throw':
            ti = ins.a[1][1][1]
            if ti[0] == 'glob':
                return {(ti[1], 'throw at %s' % self.where(f, ins)): None}
            return {('?', 'throw at %s' % self.where(f, ins)): None}
        if n in ('__cxa_rethrow', '_Unwind_Resume'):
            return {e: None for e in self.caught.get(f.name, ())}
        if self.prog.is_function(f.mod, n) and (n in f.mod.functions or n in self.prog.defs):
            m = f.mod if n in f.mod.functions else self.prog.mods[self.prog.defs[n][0]]
            k = self.prog.fnkey(m, n)
            if k in self.nothrow:
                return {}           # modular: the callee's contract, proved separately
            if k in self.throws:
                return {e: k for e in self.throws[k]}
        e = self.ext.get(n)
        if e is None:
            e = self.ext[n] = external_throws(self.prog, n)
        return {x: n for x in e}

    def where(self, f, ins):
        try:
            ln = f.mod.line(ins.dbg)
        except Exception:
            ln = None
        return '%s:%s' % (f.mod.src, ln)

    # ------------------------------------------------------------------
    def pad(self, f, frm, label, exc):
        """Follow the landing pad for an exception of dynamic type exc; 'caught', or the set of exceptions leaving."""
        prog = self.prog
        UNK = ('unk',)
        start = f.blocks[label]
        out = set()
        seen = set()
        stack = [(label, frm, {})]
        steps = 0

        def val(env, v):
            if v[0] == 'reg':
                return env.get(v[1], UNK)
            if v[0] in ('int', 'const'):
                return ('i', v[1])
            if v[0] == 'true' or v == ('bool', True):
                return ('i', 1)
            return UNK
        while stack:
            b, prev, env = stack.pop()
            steps += 1
            if steps > 400:
                out.add(exc)
                return out
            env = dict(env)
            ended = False
            for ins in f.blocks[b]:
                op = ins.op
                if op == 'phi':
                    for v, l in ins.a:
                        if l == prev:
                            env['\0' + ins.res] = val(env, v)
                    continue
                for k in [k for k in env if k[0] == '\0']:
                    env[k[1:]] = env.pop(k)
                if op == 'landingpad':
                    cleanup, clauses = ins.a
                    sel = None
                    for w, cv in clauses:
                        if w == 'catch':
                            if cv[0] == 'null':
                                sel = ('any',)
                                break
                            if cv[0] == 'glob' and (prog.exc_matches(exc[0], cv[1])):
                                sel = ('ti', cv[1])
                                break
                        elif w == 'filter':
                            sel = ('any',)
                            break
                    if sel is None:
                        if not cleanup:
                            # the pad does not stop it; unwinding continues in the caller
                            out.add(exc)
                            ended = True
                            break
                        sel = ('i', 0)
                    env[ins.res] = ('agg', UNK, sel)
                elif op == 'extractvalue':
                    v = val(env, ins.a[0])
                    env[ins.res] = v[1 + ins.a[1][0]] if v[0] == 'agg' and len(ins.a[1]) == 1 else UNK
                elif op == 'insertvalue':
                    a = val(env, ins.a[0])
                    x = val(env, ins.a[1])
                    l = list(a) if a[0] == 'agg' else ['agg', UNK, UNK]
                    if len(ins.a[2]) == 1:
                        l[1 + ins.a[2][0]] = x
                    env[ins.res] = tuple(l)
                elif op == 'icmp':
                    pr, x, y = ins.a
                    x, y = val(env, x), val(env, y)
                    r = UNK
                    if pr in ('eq', 'ne') and x[0] in ('ti', 'tid', 'i', 'any') and y[0] in ('ti', 'tid', 'i', 'any'):
                        if x[0] == 'any' or y[0] == 'any':
                            r = UNK if (x[0] in ('ti', 'any') and y[0] in ('ti', 'any')) else ('i', 0)
                        else:
                            r = ('i', 1 if x == y else 0)
                        if pr == 'ne' and r[0] == 'i':
                            r = ('i', 1 - r[1])
                    env[ins.res] = r
                elif op == 'store':
                    pv = ins.a[1]
                    if pv[0] == 'reg':
                        env['*' + pv[1]] = val(env, ins.a[0])
                elif op == 'load':
                    if ins.a[0] == 'reg':
                        env[ins.res] = env.get('*' + ins.a[1], UNK)
                elif op in ('call', 'invoke'):
                    callee = ins.a[0]
                    n = callee[1] if callee[0] == 'glob' else None
                    if n == 'llvm.eh.typeid.for' or (n or '').startswith('llvm.eh.typeid.for'):
                        a = ins.a[1][0][1]
                        env[ins.res] = ('ti', a[1]) if a[0] == 'glob' else UNK
                        continue
                    if n == '__cxa_begin_catch':
                        # caught here (a handler may still rethrow; the rethrow is a call of its own)
                        self.caught.setdefault(f.name, set()).add(exc)
                        if exc[0] == xti('DatabaseCorruptError'):
                            self.handlers.setdefault(f.name, set()).add((b, f.blocks[b].index(ins), self.where(f, ins)))
                        ended = True
                        break
                    if n == '__clang_call_terminate' or n == '_ZSt9terminatev':
                        out.add(('terminate', exc[1]))
                        ended = True
                        break
                    if op == 'invoke':
                        stack.append((ins.a[2], b, env))
                        ended = True
                        break
                elif op == 'resume':
                    out.add(exc)
                    ended = True
                    break
                elif op == 'br':
                    nb = ins.a[0]
                    if (nb, b) not in seen:
                        seen.add((nb, b))
                        stack.append((nb, b, env))
                    ended = True
                    break
                elif op == 'cbr':
                    c = val(env, ins.a[0])
                    tg = [ins.a[1], ins.a[2]] if c[0] != 'i' else [ins.a[1] if c[1] else ins.a[2]]
                    for nb in tg:
                        if (nb, b) not in seen:
                            seen.add((nb, b))
                            stack.append((nb, b, env))
                    ended = True
                    break
                elif op == 'switch':
                    v = val(env, ins.a[0])
                    for nb in [ins.a[1]] + [x[1] for x in ins.a[2]]:
                        if (nb, b) not in seen:
                            seen.add((nb, b))
                            stack.append((nb, b, env))
                    ended = True
                    break
                elif op == 'ret' or op == 'unreachable':
                    ended = True
                    break
        return out

    def analyse(self, k):
        f = self.fns[k]
        out = set()
        n = 0
        for b in f.order:
            for ins in f.blocks[b]:
                if ins.op not in ('call', 'invoke'):
                    continue
                for e, ck in self.callee_throws(f, ins).items():
                    n += 1
                    if ins.op == 'call':
                        if e not in out:
                            out.add(e)
                            self.via.setdefault((k, e), (self.where(f, ins), ck))
                    else:
                        key = (k, b, id(ins), e)
                        r = self.padcache.get(key)
                        if r is None:
                            r = self.padcache[key] = self.pad(f, b, ins.a[3], e)
                            self.npads += 1
                        for x in r:
                            if x not in out:
                                out.add(x)
                                self.via.setdefault((k, x), (self.where(f, ins), ck))
        # a function marked nounwind by a noexcept specification terminates instead (clang emits the pad itself)
        self.uses[k] = n
        return out

    def solve(self):
        self.padcache = {}
        self.caught = {}
        self.handlers = {}
        rounds = 0
        while True:
            rounds += 1
            ch = False
            for k in self.keys:
                r = self.analyse(k)
                if not r <= self.throws[k]:
                    self.throws[k] |= r
                    ch = True
            if not ch:
                break
        self.rounds = rounds
        return self

    def path(self, k, e):
        """Call chain through which e leaves k."""
        out = []
        seen = set()
        while k is not None and (k, e) in self.via and (k, e) not in seen:
            seen.add((k, e))
            w, ck = self.via[(k, e)]
            out.append('%s at %s' % (self.prog.pretty(k).split('(')[0], w))
            k = ck
        return out


UNK = ('unk',)


def ret_kind(f):
    """'status' / 'ptr' / 'void' / other, from the debug info of the function's return type."""
    m = re.search(r'!dbg !(\d+)', f.header)
    md = f.mod.md
    if not m:
        return None
    sp = md.get(int(m.group(1)), '')
    t = re.search(r'type: !(\d+)', sp)
    if not t:
        return None
    st = md.get(int(t.group(1)), '')
    ts = re.search(r'types: !(\d+)', st)
    if not ts:
        return None
    els = re.findall(r'!(\d+)|null', md.get(int(ts.group(1)), '')[2:])
    body = re.search(r'!\{(.*)\}', md.get(int(ts.group(1)), ''))
    first = body.group(1).split(',')[0].strip() if body else ''
    if first in ('null', ''):
        return 'void'
    v = md.get(int(first[1:]), '')
    for _ in range(6):
        n = re.search(r'name: "(\w+)"', v)
        if n and n.group(1) in ('notmuch_status_t', '_notmuch_status', 'notmuch_private_status_t', '_notmuch_private_status'):
            return 'status'
        if 'DW_TAG_pointer_type' in v:
            return 'ptr'
        b = re.search(r'baseType: !(\d+)', v)
        if not b:
            break
        v = md.get(int(b.group(1)), '')
    return 'other'


def after_catch(exc, f, limit=20000):
    """All values f may return on paths that pass a __cxa_begin_catch which stops the given exception type (an exception
    that reaches the handler): list of (where, value) with value in ('i', n) / ('nz',) / unknown."""
    out = set()
    steps = 0

    def val(env, v):
        if v[0] == 'reg':
            return env.get(v[1], UNK)
        if v[0] == 'int':
            return ('i', v[1])
        if v[0] in ('null', 'zero', 'false'):
            return ('i', 0)
        if v[0] == 'true':
            return ('i', 1)
        if v[0] == 'glob':
            return ('nz',)
        return UNK

    starts = exc.handlers.get(f.name, set())
    for (b0, idx, where) in sorted(starts):
        seen = set()
        stack = [(b0, None, {}, idx + 1)]
        while stack:
            b, prev, env, at = stack.pop()
            steps += 1
            if steps > limit:
                out.add((where, UNK, 'step limit'))
                break
            key = (b, prev, at, frozenset((k, v) for k, v in env.items() if v != UNK))
            if key in seen:
                continue
            seen.add(key)
            env = dict(env)
            ph = {}
            nxt = None
            for ins in f.blocks[b][at:]:
                op = ins.op
                if op == 'phi':
                    for v, l in ins.a:
                        if l == prev:
                            ph[ins.res] = val(env, v)
                    continue
                if ph:
                    env.update(ph)
                    ph = {}
                if op == 'icmp':
                    pr, x, y = ins.a
                    vx, vy = val(env, x), val(env, y)
                    r = UNK
                    if pr in ('eq', 'ne'):
                        if vx[0] == 'i' and vy[0] == 'i':
                            r = ('i', int((vx[1] == vy[1]) == (pr == 'eq')))
                        elif (vx[0] == 'nz' and vy == ('i', 0)) or (vy[0] == 'nz' and vx == ('i', 0)):
                            r = ('i', int(pr == 'ne'))
                        elif vy[0] == 'i' and x[0] == 'reg':
                            r = ('cmp', pr, x[1], vy[1])
                    env[ins.res] = r
                elif op == 'select':
                    c = val(env, ins.a[0])
                    a, d = val(env, ins.a[1]), val(env, ins.a[2])
                    if c[0] == 'cmp':
                        same, diff = (a, d) if c[1] == 'eq' else (d, a)
                        sv, dv = (ins.a[1], ins.a[2]) if c[1] == 'eq' else (ins.a[2], ins.a[1])
                        if sv == ('reg', c[2]):
                            same = ('i', c[3])
                        if dv == ('reg', c[2]) and c[3] == 0:
                            diff = ('nz',)
                        a, d = same, diff
                    if c[0] == 'i':
                        env[ins.res] = a if c[1] else d
                    elif a == d:
                        env[ins.res] = a
                    elif all(q[0] == 'nz' or (q[0] == 'i' and q[1]) for q in (a, d)):
                        env[ins.res] = ('nz',)
                    else:
                        env[ins.res] = UNK
                elif op == 'cast':
                    v = val(env, ins.a[2])
                    env[ins.res] = v if v[0] == 'i' and ins.a[0] in ('zext', 'trunc', 'sext') else UNK
                elif op == 'bin':
                    o, x, y, _ = ins.a
                    vx, vy = val(env, x), val(env, y)
                    r = UNK
                    if o == 'xor' and vy == ('i', 1) and vx[0] == 'cmp':
                        r = ('cmp', 'ne' if vx[1] == 'eq' else 'eq') + vx[2:]
                    elif vx[0] == 'i' and vy[0] == 'i':
                        r = {'and': ('i', vx[1] & vy[1]), 'or': ('i', vx[1] | vy[1]), 'xor': ('i', vx[1] ^ vy[1]),
                             'add': ('i', vx[1] + vy[1])}.get(o, UNK)
                    env[ins.res] = r
                elif op == 'store':
                    if ins.a[1][0] == 'reg':
                        env['*' + ins.a[1][1]] = val(env, ins.a[0])
                elif op == 'load':
                    env[ins.res] = env.get('*' + ins.a[1], UNK) if ins.a[0] == 'reg' else UNK
                elif op in ('call', 'invoke'):
                    callee = ins.a[0]
                    n = callee[1] if callee[0] == 'glob' else None
                    if n and re.search(r'INTERNAL_ERROR|_internal_error|abort|^exit$|__assert_fail|__cxa_rethrow|__cxa_throw', n):
                        nxt = []
                        break
                    # a local whose address is passed may be overwritten
                    for ty, a in ins.a[1]:
                        if a[0] == 'reg' and ('*' + a[1]) in env:
                            env['*' + a[1]] = UNK
                    if ins.res:
                        env[ins.res] = UNK
                    if op == 'invoke':
                        nxt = [(ins.a[2], env)]
                        break
                elif op == 'br':
                    nxt = [(ins.a[0], env)]
                    break
                elif op == 'cbr':
                    c = val(env, ins.a[0])
                    if c[0] == 'i':
                        nxt = [(ins.a[1] if c[1] else ins.a[2], env)]
                    else:
                        nxt = []
                        for tgt, truth in ((ins.a[1], True), (ins.a[2], False)):
                            e2 = env
                            if c[0] == 'cmp':
                                _, pr, reg, k = c
                                e2 = dict(env)
                                if (pr == 'eq') == truth:
                                    e2[reg] = ('i', k)
                                elif k == 0:
                                    e2[reg] = ('nz',)
                            nxt.append((tgt, e2))
                    break
                elif op == 'switch':
                    v = val(env, ins.a[0])
                    if v[0] == 'i':
                        t = [x[1] for x in ins.a[2] if x[0] == ('int', v[1]) or x[0] == v[1]]
                        nxt = [(t[0] if t else ins.a[1], env)]
                    else:
                        nxt = [(x, env) for x in [ins.a[1]] + [x[1] for x in ins.a[2]]]
                    break
                elif op == 'ret':
                    out.add((where, val(env, ins.a) if ins.a else ('void',), ''))
                    nxt = []
                    break
                elif op in ('unreachable', 'resume'):
                    nxt = []
                    break
                elif ins.res:
                    env[ins.res] = UNK
            for t, e2 in nxt or []:
                stack.append((t, b, e2, 0))
    return out

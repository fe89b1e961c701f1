"""Parser for the textual LLVM IR that clang makes of /repo's sources on every run.

Only what the verifier consumes is parsed; functions are parsed on demand.
"""
import re

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"[^"]*")
 | (?P<str>"[^"]*")
 | (?P<reg>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#\d+)
 | (?P<dots>\.\.\.)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9a-fA-F]+|-?\d+)
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.$]*)
 | (?P<p>[(){}\[\]<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('IR token at %r' % s[i:i + 40])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        i = m.end()
    return out


def unq(name):
    n = name[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


def cbytes(s):
    s = s[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\' and s[i + 1] == '\\':
            out.append(0x5c)
            i += 2
        elif s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode('utf-8')
            i += 1
    return bytes(out)


PTR = ('ptr',)
VOID = ('void',)


class P:
    """Token cursor."""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.peek() != v:
            raise SyntaxError('expected %r got %r in %s' % (v, self.peek(), ' '.join(x[1] for x in self.t)))
        self.i += 1

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    # types -------------------------------------------------------------
    def type(self):
        t = self.base_type()
        while self.peek() == '(' or self.peek() == '*':
            if self.accept('*'):
                t = PTR
                continue
            # function type
            self.expect('(')
            args = []
            va = False
            while not self.accept(')'):
                if self.accept('...'):
                    va = True
                else:
                    args.append(self.type())
                    self.skip_attrs()
                self.accept(',')
            t = ('fn', t, tuple(args), va)
        return t

    def base_type(self):
        k = self.kind()
        v = self.next()
        if k == 'word':
            if v == 'ptr':
                if self.peek() == 'addrspace':
                    self.next()
                    self.skip_parens()
                return PTR
            if v == 'void':
                return VOID
            if re.match(r'i\d+$', v):
                return ('i', int(v[1:]))
            if v in ('double', 'float', 'half', 'x86_fp80', 'fp128'):
                return ('fp', v)
            if v in ('label', 'metadata', 'token', 'opaque'):
                return (v,)
        if k == 'reg':
            return ('named', unq(v))
        if v == '[':
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('arr', n, t)
        if v == '{':
            ts = []
            while not self.accept('}'):
                ts.append(self.type())
                self.accept(',')
            return ('st', tuple(ts), False)
        if v == '<':
            if self.peek() == '{':
                self.next()
                ts = []
                while not self.accept('}'):
                    ts.append(self.type())
                    self.accept(',')
                self.expect('>')
                return ('st', tuple(ts), True)
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('vec', n, t)
        raise SyntaxError('type at %r in %s' % (v, ' '.join(x[1] for x in self.t)))

    ATTRS = {'noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'nocapture', 'returned', 'readonly',
             'readnone', 'writeonly', 'inreg', 'immarg', 'nest', 'swiftself', 'nofree', 'inrange',
             'local_unnamed_addr', 'unnamed_addr', 'dead_on_unwind', 'writable', 'noreturn', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default'}
    PATTRS = {'sret', 'byval', 'byref', 'elementtype', 'dereferenceable', 'dereferenceable_or_null', 'inalloca',
              'preallocated', 'memory', 'range', 'nofpclass', 'addrspace'}

    def skip_attrs(self):
        got = []
        while True:
            v = self.peek()
            if v in self.ATTRS:
                self.next()
                got.append(v)
            elif v == 'align':
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
                else:
                    self.next()
            elif v in self.PATTRS:
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
                got.append(v)
            else:
                return got

    # values ------------------------------------------------------------
    def value(self, ty):
        k = self.kind()
        v = self.next()
        if k == 'reg':
            return ('reg', unq(v))
        if k == 'glob':
            return ('glob', unq(v))
        if k == 'num':
            if ty[0] == 'fp':
                return ('fpc', v)
            if v.startswith('0x'):
                return ('fpc', v)
            return ('int', int(v))
        if k == 'cstr':
            return ('cstr', cbytes(v))
        if k == 'meta':
            # metadata operand: swallow
            if self.peek() == '(':
                self.skip_parens()
            return ('meta',)
        if k == 'word':
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('none',)
            if v == 'getelementptr':
                while self.peek() in ('inbounds', 'nuw', 'nusw'):
                    self.next()
                self.expect('(')
                t = self.type()
                self.expect(',')
                pt = self.type()
                base = self.value(pt)
                idx = []
                while self.accept(','):
                    self.accept('inrange')
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.expect(')')
                return ('cgep', t, base, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                ft = self.type()
                x = self.value(ft)
                self.expect('to')
                tt = self.type()
                self.expect(')')
                return ('ccast', v, ft, x, tt)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr'):
                while self.peek() in ('nuw', 'nsw', 'exact'):
                    self.next()
                self.expect('(')
                at = self.type()
                a = self.value(at)
                self.expect(',')
                bt = self.type()
                b = self.value(bt)
                self.expect(')')
                return ('cbin', v, at, a, b)
            if v == 'asm':
                while self.kind() != 'str':
                    self.next()
                a = self.next()
                self.expect(',')
                b = self.next()
                return ('asm', a, b)
        if v == '[' or v == '{' or (v == '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.peek() == '{':
                self.next()
                items = []
                while not self.accept('}'):
                    t = self.type()
                    items.append((t, self.value(t)))
                    self.accept(',')
                self.expect('>')
                return ('agg', items)
            items = []
            while not self.accept(close):
                t = self.type()
                items.append((t, self.value(t)))
                self.accept(',')
            return ('agg', items)
        raise SyntaxError('value at %r in %s' % (v, ' '.join(x[1] for x in self.t)))

    def tyval(self):
        t = self.type()
        self.skip_attrs()
        if t == ('metadata',):
            # swallow until , or ) at depth 0
            d = 0
            while True:
                v = self.peek()
                if d == 0 and (v == ',' or v == ')' or v is None):
                    break
                if v == '(' or v == '{':
                    d += 1
                if v == ')' or v == '}':
                    d -= 1
                self.next()
            return (t, ('meta',))
        return (t, self.value(t))


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'text', 'fn', 'vol')

    def __init__(self, op, res=None, ty=None, a=None):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.dbg = None
        self.text = None
        self.vol = False

    def __repr__(self):
        return '<%s %s>' % (self.op, self.text)


class Function:
    def __init__(self, mod, name, header, body):
        self.mod = mod
        self.name = name
        self.header = header
        self.body = body
        self.parsed = False
        self.parse_header()

    def parse_header(self):
        h = self.header
        p = P(tokenize(re.sub(r'\bpersonality .*$', '', h)))
        # define [linkage] [attrs] type @name(args)
        self.linkage = []
        while True:
            v = p.peek()
            if v in ('define', 'declare', 'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common',
                     'linkonce_odr', 'weak_odr', 'external', 'extern_weak', 'fastcc', 'ccc'):
                self.linkage.append(p.next())
            elif v in P.ATTRS or v in P.PATTRS or v == 'align':
                p.skip_attrs()
            else:
                break
        # parse return type carefully: base only (function types are not returned)
        self.ret = p.base_type()
        p.next()
        p.expect('(')
        self.params = []
        self.variadic = False
        cnt = 0
        while not p.accept(')'):
            if p.accept('...'):
                self.variadic = True
                continue
            t = p.type()
            at = p.skip_attrs()
            if p.kind() == 'reg':
                nm = unq(p.next())
            else:
                nm = str(cnt)
            self.params.append((t, nm, at))
            cnt += 1
            p.accept(',')
        m = re.search(r'!dbg !(\d+)', h)
        self.dbg = int(m.group(1)) if m else None

    def parse(self):
        if self.parsed:
            return self
        self.parsed = True
        self.blocks = {}
        self.order = []
        cur = None
        # first label
        lines = self.body
        nparam = len(self.params)
        i = 0
        self.entry = None
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.split(';', 1)[0].rstrip() if ';' in ln and '"' not in ln else ln.rstrip()
            if not s.strip():
                continue
            m = re.match(r'^("?[-a-zA-Z$._0-9]+"?):', s)
            if m and not s.startswith(' '):
                lab = m.group(1).strip('"')
                cur = []
                self.blocks[lab] = cur
                self.order.append(lab)
                if self.entry is None:
                    self.entry = lab
                continue
            if cur is None:
                lab = str(nparam)
                cur = []
                self.blocks[lab] = cur
                self.order.append(lab)
                self.entry = lab
            s = s.strip()
            if s.startswith('switch') and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ' + lines[i].strip()
                i += 1
            # invoke / landingpad continuations
            while i < len(lines) and re.match(r'^\s+(to label|catch|cleanup|filter)\b', lines[i]):
                s += ' ' + lines[i].strip()
                i += 1
            if 'llvm.dbg.' in s:
                continue
            ins = self.parse_ins(s)
            if ins is not None:
                ins.text = s
                ins.fn = self
                cur.append(ins)
        self.analyse()
        return self

    def parse_ins(self, s):
        dbg = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            dbg = int(m.group(1))
        s = re.sub(r', ![a-zA-Z_.]+ ![0-9]+', '', s)
        p = P(tokenize(s))
        res = None
        if p.kind() == 'reg' and p.peek(1) == '=':
            res = unq(p.next())
            p.next()
        op = p.next()
        ins = self.parse_op(p, op, res)
        if ins is not None:
            ins.dbg = dbg
        return ins

    def parse_op(self, p, op, res):
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op == 'ret':
            if p.accept('void'):
                return Ins('ret', None, VOID, None)
            t, v = p.tyval()
            return Ins('ret', None, t, v)
        if op == 'br':
            if p.accept('label'):
                return Ins('br', None, None, (unq(p.next()),))
            t, v = p.tyval()
            p.expect(',')
            p.expect('label')
            a = unq(p.next())
            p.expect(',')
            p.expect('label')
            b = unq(p.next())
            return Ins('cbr', None, None, (v, a, b))
        if op == 'switch':
            t, v = p.tyval()
            p.expect(',')
            p.expect('label')
            d = unq(p.next())
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct, cv = p.tyval()
                p.expect(',')
                p.expect('label')
                cases.append((cv[1], unq(p.next())))
            return Ins('switch', None, t, (v, d, cases))
        if op == 'unreachable':
            return Ins('unreachable')
        if op in ('call', 'invoke'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'ccc', 'fastcc', 'coldcc'):
                p.next()
            p.skip_attrs()
            rt = p.base_type()
            fnty = None
            if p.peek() == '(':
                # function type given explicitly
                save = p.i
                p.i -= 0
                p.skip_parens()
                if p.kind() in ('glob', 'reg'):
                    fnty = 'va'
                else:
                    p.i = save
            callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                args.append(p.tyval())
                p.accept(',')
            normal = unwind = None
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.expect('to')
                p.expect('label')
                normal = unq(p.next())
                p.expect('unwind')
                p.expect('label')
                unwind = unq(p.next())
            return Ins(op, res, rt, (callee, args, normal, unwind))
        if op == 'resume':
            t, v = p.tyval()
            return Ins('resume', None, t, v)
        if op == 'landingpad':
            t = p.type()
            cleanup = False
            clauses = []
            while p.peek() is not None:
                w = p.next()
                if w == 'cleanup':
                    cleanup = True
                elif w in ('catch', 'filter'):
                    ct, cv = p.tyval()
                    clauses.append((w, cv))
            return Ins('landingpad', res, t, (cleanup, clauses))
        if op == 'alloca':
            p.accept('inalloca')
            t = p.type()
            cnt = None
            while p.accept(','):
                if p.peek() == 'align':
                    p.next()
                    p.next()
                else:
                    cnt = p.tyval()
            return Ins('alloca', res, t, cnt)
        if op == 'load':
            p.accept('atomic')
            vol = p.accept('volatile')
            t = p.type()
            p.expect(',')
            pt, pv = p.tyval()
            r = Ins('load', res, t, pv)
            r.vol = bool(vol)
            return r
        if op == 'store':
            p.accept('atomic')
            p.accept('volatile')
            t, v = p.tyval()
            p.expect(',')
            pt, pv = p.tyval()
            return Ins('store', None, t, (v, pv))
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            t = p.type()
            p.expect(',')
            pt, base = p.tyval()
            idx = []
            while p.accept(','):
                idx.append(p.tyval())
            return Ins('gep', res, t, (base, idx))
        if op in ('icmp', 'fcmp'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz'):
                p.next()
            pred = p.next()
            t, a = p.tyval()
            p.expect(',')
            b = p.value(t)
            return Ins(op, res, t, (pred, a, b))
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            flags = []
            while p.peek() in ('nuw', 'nsw', 'exact', 'fast', 'disjoint', 'nnan', 'ninf', 'nsz', 'contract'):
                flags.append(p.next())
            t, a = p.tyval()
            p.expect(',')
            b = p.value(t)
            return Ins('bin', res, t, (op, a, b, flags))
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
                  'fpext', 'fptrunc', 'addrspacecast'):
            p.accept('nneg')
            t, a = p.tyval()
            p.expect('to')
            tt = p.type()
            return Ins('cast', res, tt, (op, t, a))
        if op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                l = unq(p.next())
                p.expect(']')
                inc.append((v, l))
                if not p.accept(','):
                    break
            return Ins('phi', res, t, inc)
        if op == 'select':
            ct, c = p.tyval()
            p.expect(',')
            t, a = p.tyval()
            p.expect(',')
            t2, b = p.tyval()
            return Ins('select', res, t, (c, a, b))
        if op == 'extractvalue':
            t, a = p.tyval()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Ins('extractvalue', res, t, (a, idx))
        if op == 'insertvalue':
            t, a = p.tyval()
            p.expect(',')
            t2, b = p.tyval()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Ins('insertvalue', res, t, (a, b, idx))
        if op == 'freeze':
            t, a = p.tyval()
            return Ins('freeze', res, t, a)
        if op == 'fneg':
            t, a = p.tyval()
            return Ins('fneg', res, t, a)
        if op == 'va_arg':
            t, a = p.tyval()
            return Ins('va_arg', res, None, a)
        if op in ('cmpxchg', 'atomicrmw', 'fence', 'extractelement', 'insertelement', 'shufflevector'):
            return Ins('unsupported', res, None, op)
        raise SyntaxError('op %s' % op)

    # CFG ---------------------------------------------------------------
    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return [t.a[0]]
        if t.op == 'cbr':
            return [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[1]] + [c[1] for c in t.a[2]]
        if t.op == 'invoke':
            return [t.a[2], t.a[3]]
        return []

    def analyse(self):
        succ = {b: self.succs(b) for b in self.order}
        pred = {b: [] for b in self.order}
        for b in self.order:
            for s in succ[b]:
                pred[s].append(b)
        self.succ, self.pred = succ, pred
        # iterative dominators
        rpo = []
        seen = set()
        stack = [(self.entry, iter(succ[self.entry]))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                rpo.append(b)
                stack.pop()
        rpo.reverse()
        idx = {b: i for i, b in enumerate(rpo)}
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                ps = [x for x in pred[b] if x in idom]
                if not ps:
                    continue
                n = ps[0]
                for x in ps[1:]:
                    a, c = n, x
                    while a != c:
                        while idx[a] > idx[c]:
                            a = idom[a]
                        while idx[c] > idx[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in idx and idx[s] <= idx[b] and dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(y for y in pred[x] if y in idx)
        self.rpo = rpo
        # loop headers with nesting (outermost first)
        self.parents = {h: [g for g in self.loops if g != h and h in self.loops[g]] for h in self.loops}


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'linkage')


class Module:
    def __init__(self, path):
        self.path = path
        self.text = open(path, encoding='utf-8', errors='surrogateescape').read()
        self.types = {}
        self.globals = {}
        self.gtext = {}
        self.functions = {}
        self.declares = {}
        self.md = {}
        self.scan()

    def scan(self):
        lines = self.text.split('\n')
        self.text = None
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == '%':
                m = re.match(r'%("[^"]*"|[-a-zA-Z$._0-9]+) = type (.*)$', ln)
                if m:
                    nm = m.group(1).strip('"')
                    if m.group(2).strip() == 'opaque':
                        self.types[nm] = ('opaque',)
                    else:
                        self.types[nm] = P(tokenize(m.group(2))).type()
            elif c == '@':
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
                self.gtext[m.group(1).strip('"')] = m.group(2)
            elif ln.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                nm = m.group(1).strip('"')
                hdr = ln.rstrip('{ ')
                self.functions[nm] = (hdr, body)
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.declares[m.group(1).strip('"')] = ln
            elif c == '!':
                m = re.match(r'!(\d+) = (.*)$', ln)
                if m:
                    self.md[int(m.group(1))] = m.group(2)

    def fn(self, name):
        f = self.functions.get(name)
        if f is None:
            return None
        if isinstance(f, tuple):
            f = Function(self, name, f[0], f[1])
            self.functions[name] = f
        return f

    def glob(self, name):
        g = self.globals.get(name)
        if g is not None:
            return g
        t = self.gtext.get(name)
        if t is None:
            return None
        t = re.sub(r', ![a-zA-Z_.]+ ![0-9]+', '', t)
        t = re.sub(r', (align \d+|comdat(\([^)]*\))?|section "[^"]*")', '', t)
        p = P(tokenize(t))
        g = Global()
        g.name = name
        g.const = False
        g.linkage = []
        while True:
            v = p.next()
            if v in ('constant', 'global'):
                g.const = v == 'constant'
                break
            if v == 'alias':
                g.ty = p.type()
                p.expect(',')
                g.init = p.tyval()[1]
                g.linkage.append('alias')
                self.globals[name] = g
                return g
            if v in ('thread_local', 'addrspace'):
                if p.peek() == '(':
                    p.skip_parens()
            g.linkage.append(v)
        g.ty = p.type()
        g.init = None
        if p.peek() is not None and p.peek() != ',':
            g.init = p.value(g.ty)
        self.globals[name] = g
        return g

    # layout ------------------------------------------------------------
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size_align(self, t):
        k = t[0]
        if k == 'named':
            t = self.types[t[1]]
            k = t[0]
        if k == 'i':
            n = t[1]
            b = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
            return b, b
        if k == 'ptr':
            return 8, 8
        if k == 'fp':
            return {'double': (8, 8), 'float': (4, 4), 'x86_fp80': (16, 16), 'half': (2, 2), 'fp128': (16, 16)}[t[1]]
        if k == 'arr':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'vec':
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if k == 'st':
            off = 0
            al = 1
            for x in t[1]:
                s, a = self.size_align(x)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return off, al
        if k == 'fn':
            return 1, 1
        if k == 'opaque':
            return 0, 1
        raise ValueError('size of %r' % (t,))

    def sizeof(self, t):
        return self.size_align(t)[0]

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, x in enumerate(t[1]):
            s, a = self.size_align(x)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, x
            off += s
        raise IndexError

    # debug info --------------------------------------------------------
    def line(self, dbg):
        """(file-scope function, line) of a !dbg id."""
        if dbg is None or dbg not in self.md:
            return None
        m = re.search(r'line: (\d+)', self.md[dbg])
        return int(m.group(1)) if m else None

    def _md_struct(self):
        if hasattr(self, '_structs'):
            return self._structs
        st = {}
        alias = []
        for k, v in self.md.items():
            if 'DICompositeType(tag: DW_TAG_structure_type' in v or 'DICompositeType(tag: DW_TAG_class_type' in v or 'DICompositeType(tag: DW_TAG_union_type' in v:
                m = re.search(r'name: "([^"]*)"', v)
                if 'elements:' in v:
                    st.setdefault(m.group(1) if m else '#%d' % k, k)
                    if m is None:
                        pass
            if 'DIDerivedType(tag: DW_TAG_typedef' in v:
                m = re.search(r'name: "([^"]*)"', v)
                b = re.search(r'baseType: !(\d+)', v)
                if m and b:
                    alias.append((m.group(1), int(b.group(1))))
        for nm, b in alias:
            if nm not in st:
                v = self.md.get(b, '')
                if 'DICompositeType' in v and 'elements:' in v:
                    st[nm] = b
        self._structs = st
        return st

    def struct_fields(self, name):
        """{member: (byte offset, byte size)} from the debug info, or None."""
        if not hasattr(self, '_sf'):
            self._sf = {}
        if name in self._sf:
            return self._sf[name]
        st = self._md_struct()
        r = None
        if name in st:
            r = self._fields(st[name])
        self._sf[name] = r
        return r

    def _fields(self, k):
        v = self.md[k]
        m = re.search(r'elements: !(\d+)', v)
        r = {}
        for e in re.findall(r'!(\d+)', self.md[int(m.group(1))]):
            ev = self.md[int(e)]
            if 'DW_TAG_member' not in ev:
                continue
            nm = re.search(r'name: "([^"]*)"', ev)
            off = re.search(r'offset: (\d+)', ev)
            sz = re.search(r'size: (\d+)', ev)
            if nm:
                r[nm.group(1)] = (int(off.group(1)) // 8 if off else 0, int(sz.group(1)) // 8 if sz else 0)
        return r

    def struct_size(self, name):
        st = self._md_struct()
        m = re.search(r'size: (\d+)', self.md[st[name]])
        return int(m.group(1)) // 8

    def enum_values(self):
        if hasattr(self, '_enums'):
            return self._enums
        r = {}
        for v in self.md.values():
            if v.startswith('!DIEnumerator('):
                m = re.search(r'name: "([^"]*)", value: (-?\d+)', v)
                if m:
                    r[m.group(1)] = int(m.group(2))
        self._enums = r
        return r
